From 9e9d8ec8e800672c201854617d0586e02de959b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:06 +0000
Subject: [PATCH 001/115] fix: set the output before asking for its position
 when saving TGA and TIFF to memory

---
 DevIL/src-IL/src/il_mng.cpp   | 3 ++-
 DevIL/src-IL/src/il_targa.cpp | 3 ++-
 DevIL/src-IL/src/il_tiff.cpp  | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/DevIL/src-IL/src/il_mng.cpp b/DevIL/src-IL/src/il_mng.cpp
index 8241c23..7a54801 100644
--- a/DevIL/src-IL/src/il_mng.cpp
+++ b/DevIL/src-IL/src/il_mng.cpp
@@ -314,8 +314,9 @@ ILboolean ilSaveMng(const ILstring FileName)
 //! Writes a Mng to an already-opened file
 ILuint ilSaveMngF(ILHANDLE File)
 {
-	ILuint Pos = itellw();
+	ILuint Pos;
 	iSetOutputFile(File);
+	Pos = itellw();
 	if (iSaveMngInternal() == IL_FALSE)
 		return 0;  // Error occurred
 	return itellw() - Pos;  // Return the number of bytes written.
diff --git a/DevIL/src-IL/src/il_targa.cpp b/DevIL/src-IL/src/il_targa.cpp
index 8cb0e06..46202db 100644
--- a/DevIL/src-IL/src/il_targa.cpp
+++ b/DevIL/src-IL/src/il_targa.cpp
@@ -580,8 +580,9 @@ ILuint ilSaveTargaF(ILHANDLE File)
 //! Writes a Targa to a memory "lump"
 ILuint ilSaveTargaL(void *Lump, ILuint Size)
 {
-	ILuint Pos = itellw();
+	ILuint Pos;
 	iSetOutputLump(Lump, Size);
+	Pos = itellw();
 	if (iSaveTargaInternal() == IL_FALSE)
 		return 0;  // Error occurred
 	return itellw() - Pos;  // Return the number of bytes written.
diff --git a/DevIL/src-IL/src/il_tiff.cpp b/DevIL/src-IL/src/il_tiff.cpp
index 4d9d117..d4253ba 100644
--- a/DevIL/src-IL/src/il_tiff.cpp
+++ b/DevIL/src-IL/src/il_tiff.cpp
@@ -914,8 +914,9 @@ ILuint ilSaveTiffF(ILHANDLE File)
 //! Writes a Tiff to a memory "lump"
 ILuint ilSaveTiffL(void *Lump, ILuint Size)
 {
-	ILuint Pos = itellw();
+	ILuint Pos;
 	iSetOutputLump(Lump, Size);
+	Pos = itellw();
 	if (iSaveTiffInternal() == IL_FALSE)
 		return 0;  // Error occurred
 	return itellw() - Pos;  // Return the number of bytes written.
-- 
2.43.0


From 6a1abeb0a1a5f280055ee53829f8354855f61c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:55 +0000
Subject: [PATCH 002/115] fix: RLE packets wrote one byte too many, and the TGA
 RLE buffer was too small for images one pixel wide

---
 DevIL/src-IL/src/il_rle.cpp   | 1 -
 DevIL/src-IL/src/il_targa.cpp | 2 +-
 2 files changed, 1 insertion(+), 2 deletions(-)

diff --git a/DevIL/src-IL/src/il_rle.cpp b/DevIL/src-IL/src/il_rle.cpp
index c572631..edaa46b 100644
--- a/DevIL/src-IL/src/il_rle.cpp
+++ b/DevIL/src-IL/src/il_rle.cpp
@@ -101,7 +101,6 @@ ILboolean ilRleCompressLine(ILubyte *p, ILuint n, ILubyte bpp,
 			n -= SameCount;
 			RLEBufSize += bpp + 1;
 			p += (SameCount - 1) * bpp;
-			*q++ = *p++;
 			switch(bpp) {
 				case 4:	*q++ = *p++;
 				case 3: *q++ = *p++;
diff --git a/DevIL/src-IL/src/il_targa.cpp b/DevIL/src-IL/src/il_targa.cpp
index 46202db..6f3e3ac 100644
--- a/DevIL/src-IL/src/il_targa.cpp
+++ b/DevIL/src-IL/src/il_targa.cpp
@@ -758,7 +758,7 @@ ILboolean iSaveTargaInternal()
 	if (!Compress)
 		iwrite(TempData, sizeof(ILubyte), TempImage->SizeOfData);
 	else {
-		Rle = (ILubyte*)ialloc(TempImage->SizeOfData + TempImage->SizeOfData / 2 + 1);	// max
+		Rle = (ILubyte*)ialloc(TempImage->SizeOfData * 2 + 1);	// max
 		if (Rle == NULL) {
 			ifree(AuthName);
 			ifree(AuthComment);
-- 
2.43.0


From 1a89ba481b20f9d5119dc46c19ff63edcfeb3e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:55 +0000
Subject: [PATCH 003/115] fix: TGA written from an upper left image claimed a
 top left origin for data stored bottom up

---
 DevIL/src-IL/src/il_targa.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/DevIL/src-IL/src/il_targa.cpp b/DevIL/src-IL/src/il_targa.cpp
index 6f3e3ac..f6c2418 100644
--- a/DevIL/src-IL/src/il_targa.cpp
+++ b/DevIL/src-IL/src/il_targa.cpp
@@ -742,8 +742,7 @@ ILboolean iSaveTargaInternal()
 	Temp = 0;
 	if (iCurImage->Bpp > 3)
 		Temp = 8;
-	if (TempImage->Origin == IL_ORIGIN_UPPER_LEFT)
-		Temp |= 0x20; //set 5th bit
+	// The data is always written bottom row first, so the origin bits stay 0.
 	iwrite(&Temp, sizeof(ILubyte), 1);
 	iwrite(ID, sizeof(char), IDLen);
 	ifree(ID);
-- 
2.43.0


From 38202a8eff9a23347b495898e3d8a6c27d575a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:10 +0000
Subject: [PATCH 004/115] fix: clipping a string read and wrote past its end

---
 DevIL/src-IL/src/il_states.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/DevIL/src-IL/src/il_states.cpp b/DevIL/src-IL/src/il_states.cpp
index 752624b..b242c7f 100644
--- a/DevIL/src-IL/src/il_states.cpp
+++ b/DevIL/src-IL/src/il_states.cpp
@@ -164,7 +164,9 @@ char *iClipString(char *String, ILuint MaxLen)
 		return NULL;
 	}
 
-	memcpy(Clipped, String, MaxLen * sizeof(char) /*sizeof(ILchar)*/);
+	if (Length > MaxLen)
+		Length = MaxLen;
+	memcpy(Clipped, String, Length * sizeof(char) /*sizeof(ILchar)*/);
 	Clipped[Length] = 0;
 
 	return Clipped;
-- 
2.43.0


From eb82f7d420255ab2687dceca6e46ae6cca580b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:44 +0000
Subject: [PATCH 005/115] fix: TGA loader: failed reads reported success,
 colour mapped and grey images with odd depths were inconsistent, 16 bit
 colour maps were garbled

---
 DevIL/src-IL/src/il_targa.cpp | 58 ++++++++++++++++++++++-------------
 1 file changed, 37 insertions(+), 21 deletions(-)

diff --git a/DevIL/src-IL/src/il_targa.cpp b/DevIL/src-IL/src/il_targa.cpp
index f6c2418..1ceebf3 100644
--- a/DevIL/src-IL/src/il_targa.cpp
+++ b/DevIL/src-IL/src/il_targa.cpp
@@ -219,6 +219,9 @@ ILboolean iLoadTargaInternal()
 			return IL_FALSE;
 	}
 	
+	if (!bTarga)
+		return IL_FALSE;
+
 	// @JASON Extra Code to manipulate the image depending on
 	// the Image Descriptor's origin bits.
 	iOrigin = Header.ImageDesc & IMAGEDESC_ORIGIN_MASK;
@@ -251,43 +254,49 @@ ILboolean iLoadTargaInternal()
 ILboolean iReadColMapTga(TARGAHEAD *Header)
 {
 	char		ID[255];
-	ILuint		i;
+	ILuint		i, PalSize;
+	ILenum		PalType;
 	ILushort	Pixel;
 	
 	if (iread(ID, 1, Header->IDLen) != Header->IDLen)
 		return IL_FALSE;
 	
-	if (!ilTexImage(Header->Width, Header->Height, 1, (ILubyte)(Header->Bpp >> 3), 0, IL_UNSIGNED_BYTE, NULL)) {
+	// Only 8-bit indices are supported, and a colour mapped image needs its map.
+	if (Header->Bpp != 8 || Header->ColMapLen <= 0) {
+		ilSetError(IL_ILLEGAL_FILE_VALUE);
 		return IL_FALSE;
 	}
-	if (iCurImage->Pal.Palette && iCurImage->Pal.PalSize)
-		ifree(iCurImage->Pal.Palette);
-	
-	iCurImage->Format = IL_COLOUR_INDEX;
-	iCurImage->Pal.PalSize = Header->ColMapLen * (Header->ColMapEntSize >> 3);
-	
+
 	switch (Header->ColMapEntSize)
 	{
 		case 16:
-			iCurImage->Pal.PalType = IL_PAL_BGRA32;
-			iCurImage->Pal.PalSize = Header->ColMapLen * 4;
+			PalType = IL_PAL_BGRA32;
+			PalSize = Header->ColMapLen * 4;
 			break;
 		case 24:
-			iCurImage->Pal.PalType = IL_PAL_BGR24;
+			PalType = IL_PAL_BGR24;
+			PalSize = Header->ColMapLen * 3;
 			break;
 		case 32:
-			iCurImage->Pal.PalType = IL_PAL_BGRA32;
+			PalType = IL_PAL_BGRA32;
+			PalSize = Header->ColMapLen * 4;
 			break;
 		default:
 			// Should *never* reach here
 			ilSetError(IL_ILLEGAL_FILE_VALUE);
 			return IL_FALSE;
 	}
+
+	if (!ilTexImage(Header->Width, Header->Height, 1, (ILubyte)(Header->Bpp >> 3), IL_COLOUR_INDEX, IL_UNSIGNED_BYTE, NULL)) {
+		return IL_FALSE;
+	}
 	
-	iCurImage->Pal.Palette = (ILubyte*)ialloc(iCurImage->Pal.PalSize);
+	iCurImage->Pal.Palette = (ILubyte*)ialloc(PalSize);
 	if (iCurImage->Pal.Palette == NULL) {
 		return IL_FALSE;
 	}
+	iCurImage->Pal.PalSize = PalSize;
+	iCurImage->Pal.PalType = PalType;
 	
 	// Do we need to do something with FirstEntry?	Like maybe:
 	//	iread(Image->Pal + Targa->FirstEntry, 1, Image->Pal.PalSize);  ??
@@ -300,13 +309,13 @@ ILboolean iReadColMapTga(TARGAHEAD *Header)
 		// 16 bit palette, so we have to break it up.
 		for (i = 0; i < iCurImage->Pal.PalSize; i += 4)
 		{
-			Pixel = GetBigUShort();
-			if (ieof())
+			if (iread(&Pixel, sizeof(Pixel), 1) != 1)
 				return IL_FALSE;
-			iCurImage->Pal.Palette[3] = (Pixel & 0x8000) >> 12;
-			iCurImage->Pal.Palette[0] = (Pixel & 0xFC00) >> 7;
-			iCurImage->Pal.Palette[1] = (Pixel & 0x03E0) >> 2;
-			iCurImage->Pal.Palette[2] = (Pixel & 0x001F) << 3;
+			UShort(&Pixel);
+			iCurImage->Pal.Palette[i + 3] = (Pixel & 0x8000) ? 0xFF : 0;
+			iCurImage->Pal.Palette[i + 2] = (Pixel & 0x7C00) >> 7;
+			iCurImage->Pal.Palette[i + 1] = (Pixel & 0x03E0) >> 2;
+			iCurImage->Pal.Palette[i] = (Pixel & 0x001F) << 3;
 		}
 	}
 	
@@ -349,7 +358,7 @@ ILboolean iReadUnmapTga(TARGAHEAD *Header)
 	switch (iCurImage->Bpp)
 	{
 		case 1:
-			iCurImage->Format = IL_COLOUR_INDEX;  // wtf?  How is this possible?
+			iCurImage->Format = IL_LUMINANCE;  // Without a colour map it can only be grey.
 			break;
 		case 2:  // 16-bit is not supported directly!
 				 //iCurImage->Format = IL_RGB5_A1;
@@ -418,7 +427,14 @@ ILboolean iReadBwTga(TARGAHEAD *Header)
 	// We assume that no palette is present, but it's possible...
 	//	Should we mess with it or not?
 	
-	if (!ilTexImage(Header->Width, Header->Height, 1, (ILubyte)(Header->Bpp >> 3), IL_LUMINANCE, IL_UNSIGNED_BYTE, NULL)) {
+	// 16 bits are luminance with alpha; more make no sense in a black and white image.
+	if (Header->Bpp != 8 && Header->Bpp != 16) {
+		ilSetError(IL_ILLEGAL_FILE_VALUE);
+		return IL_FALSE;
+	}
+
+	if (!ilTexImage(Header->Width, Header->Height, 1, (ILubyte)(Header->Bpp >> 3),
+			Header->Bpp == 8 ? IL_LUMINANCE : IL_LUMINANCE_ALPHA, IL_UNSIGNED_BYTE, NULL)) {
 		return IL_FALSE;
 	}
 	
-- 
2.43.0


From 9a6b3a700438bd2a6737aa253dfa7359069c4012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:44 +0000
Subject: [PATCH 006/115] fix: check the type and size of a new image before
 anything is freed or allocated

---
 DevIL/src-IL/src/il_devil.cpp | 39 ++++++++++++++++++++++++++++++++---
 1 file changed, 36 insertions(+), 3 deletions(-)

diff --git a/DevIL/src-IL/src/il_devil.cpp b/DevIL/src-IL/src/il_devil.cpp
index c9eeb5d..039381b 100644
--- a/DevIL/src-IL/src/il_devil.cpp
+++ b/DevIL/src-IL/src/il_devil.cpp
@@ -16,16 +16,40 @@
 #include <limits.h>
 
 
-ILAPI ILboolean ILAPIENTRY ilInitImage(ILimage *Image, ILuint Width, ILuint Height, ILuint Depth, ILubyte Bpp, ILenum Format, ILenum Type, void *Data)
+// Checks the type of a new image, and that its size fits the fields of an ILimage.
+static ILboolean iCheckImageParams(ILuint Width, ILuint Height, ILuint Depth, ILubyte Bpp, ILenum Type)
 {
-	ILubyte BpcType = ilGetBpcType(Type);
-	if (BpcType == 0) {
+	ILuint64 Size;
+
+	if (ilGetBpcType(Type) == 0) {
 		ilSetError(IL_INVALID_PARAM);
 		return IL_FALSE;
 	}
 
+	Size = (ILuint64)IL_MAX(Width, 1) * Bpp * ilGetBpcType(Type);
+	if (Size <= UINT_MAX)
+		Size *= IL_MAX(Height, 1);
+	if (Size <= UINT_MAX)
+		Size *= IL_MAX(Depth, 1);
+	if (Size > UINT_MAX) {
+		ilSetError(IL_OUT_OF_MEMORY);
+		return IL_FALSE;
+	}
+
+	return IL_TRUE;
+}
+
+
+ILAPI ILboolean ILAPIENTRY ilInitImage(ILimage *Image, ILuint Width, ILuint Height, ILuint Depth, ILubyte Bpp, ILenum Format, ILenum Type, void *Data)
+{
+	ILubyte BpcType = ilGetBpcType(Type);
+
+	// Nothing that the image held before is owned by it any longer.
 	memset(Image, 0, sizeof(ILimage));
 
+	if (!iCheckImageParams(Width, Height, Depth, Bpp, Type))
+		return IL_FALSE;
+
 	////
 	if (Width  == 0) Width = 1;
 	if (Height == 0) Height = 1;
@@ -47,6 +71,9 @@ ILAPI ILboolean ILAPIENTRY ilInitImage(ILimage *Image, ILuint Width, ILuint Heig
 
 	Image->Data = (ILubyte*)ialloc(Image->SizeOfData);
 	if (Image->Data == NULL) {
+		// There is no data, so there is nothing for anyone to touch.
+		Image->Width = Image->Height = Image->Depth = 0;
+		Image->Bps = Image->SizeOfPlane = Image->SizeOfData = 0;
 		return IL_FALSE;
 	}
 
@@ -139,6 +166,9 @@ ILAPI ILboolean ILAPIENTRY ilTexImage_(ILimage *Image, ILuint Width, ILuint Heig
 
 	////
 
+	if (!iCheckImageParams(Width, Height, Depth, Bpp, Type))
+		return IL_FALSE;
+
 	// Not sure if we should be getting rid of the palette...
 	if (Image->Pal.Palette && Image->Pal.PalSize && Image->Pal.PalType != IL_PAL_NONE) {
 		ifree(Image->Pal.Palette);
@@ -202,6 +232,9 @@ ILboolean ILAPIENTRY ilTexImageSurface_(ILimage *Image, ILuint Width, ILuint Hei
 
 	////
 
+	if (!iCheckImageParams(Width, Height, Depth, Bpp, Type))
+		return IL_FALSE;
+
 	// Not sure if we should be getting rid of the palette...
 	if (Image->Pal.Palette && Image->Pal.PalSize && Image->Pal.PalType != IL_PAL_NONE) {
 		ifree(Image->Pal.Palette);
-- 
2.43.0


From b2a14e2c152abc3a2ef5a02e95bb6d19732db3aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:36 +0000
Subject: [PATCH 007/115] fix: SGI: 16 bit images were written and read
 wrongly, RLE lines could overrun, and RLE saving reported a wrong size

---
 DevIL/src-IL/src/il_sgi.cpp | 90 ++++++++++++++++++++-----------------
 1 file changed, 48 insertions(+), 42 deletions(-)

diff --git a/DevIL/src-IL/src/il_sgi.cpp b/DevIL/src-IL/src/il_sgi.cpp
index 3f07f65..6adf032 100644
--- a/DevIL/src-IL/src/il_sgi.cpp
+++ b/DevIL/src-IL/src/il_sgi.cpp
@@ -281,10 +281,10 @@ ILboolean iReadRleSgi(iSgiHeader *Head)
 	// Assemble the image from its planes
 	for (ixPixel = 0; ixPixel < iCurImage->SizeOfData;
 		ixPixel += Head->ZSize * Head->Bpc, ChanInt += Head->Bpc) {
-		for (ixPlane = 0; (ILint)ixPlane < Head->ZSize * Head->Bpc;	ixPlane += Head->Bpc) {
-			iCurImage->Data[ixPixel + ixPlane] = TempData[ixPlane][ChanInt];
+		for (ixPlane = 0; ixPlane < Head->ZSize; ixPlane++) {
+			iCurImage->Data[ixPixel + ixPlane * Head->Bpc] = TempData[ixPlane][ChanInt];
 			if (Head->Bpc == 2)
-				iCurImage->Data[ixPixel + ixPlane + 1] = TempData[ixPlane][ChanInt + 1];
+				iCurImage->Data[ixPixel + ixPlane * 2 + 1] = TempData[ixPlane][ChanInt + 1];
 		}
 	}
 
@@ -320,22 +320,23 @@ cleanup_error:
 
 ILint iGetScanLine(ILubyte *ScanLine, iSgiHeader *Head, ILuint Length)
 {
-	ILushort Pixel, Count;  // For current pixel
+	ILubyte	 Pixel[2];  // For current pixel (big endian)
+	ILushort Control, Count;
 	ILuint	 BppRead = 0, CurPos = 0, Bps = Head->XSize * Head->Bpc;
 
 	while (BppRead < Length && CurPos < Bps)
 	{
-		Pixel = 0;
-		if (iread(&Pixel, Head->Bpc, 1) != 1)
+		if (iread(Pixel, Head->Bpc, 1) != 1)
 			return -1;
 		
-#ifndef __LITTLE_ENDIAN__
-		iSwapUShort(&Pixel);
-#endif
+		// The control value is in the low order byte.
+		Control = Pixel[Head->Bpc - 1];
 
-		if (!(Count = (Pixel & 0x7f)))  // If 0, line ends
+		if (!(Count = (Control & 0x7f)))  // If 0, line ends
 			return CurPos;
-		if (Pixel & 0x80) {  // If top bit set, then it is a "run"
+		if (CurPos + (ILuint)Count * Head->Bpc > Bps)  // Does not fit in the line
+			return -1;
+		if (Control & 0x80) {  // If top bit set, then it is a "run"
 			if (iread(ScanLine, Head->Bpc, Count) != Count)
 				return -1;
 			BppRead += Head->Bpc * Count + Head->Bpc;
@@ -343,21 +344,19 @@ ILint iGetScanLine(ILubyte *ScanLine, iSgiHeader *Head, ILuint Length)
 			CurPos += Head->Bpc * Count;
 		}
 		else {
-			if (iread(&Pixel, Head->Bpc, 1) != 1)
+			if (iread(Pixel, Head->Bpc, 1) != 1)
 				return -1;
-#ifndef __LITTLE_ENDIAN__
-			iSwapUShort(&Pixel);
-#endif
 			if (Head->Bpc == 1) {
 				while (Count--) {
-					*ScanLine = (ILubyte)Pixel;
+					*ScanLine = Pixel[0];
 					ScanLine++;
 					CurPos++;
 				}
 			}
 			else {
 				while (Count--) {
-					*(ILushort*)ScanLine = Pixel;
+					ScanLine[0] = Pixel[0];
+					ScanLine[1] = Pixel[1];
 					ScanLine += 2;
 					CurPos += 2;
 				}
@@ -391,8 +390,8 @@ ILboolean iReadNonRleSgi(iSgiHeader *Head)
 	}
 
 	for (c = 0; c < iCurImage->Bpp; c++) {
-		for (i = c; i < iCurImage->SizeOfData; i += iCurImage->Bpp) {
-			if (iread(iCurImage->Data + i, 1, 1) != 1) {
+		for (i = c * iCurImage->Bpc; i < iCurImage->SizeOfData; i += iCurImage->Bpp * iCurImage->Bpc) {
+			if (iread(iCurImage->Data + i, iCurImage->Bpc, 1) != 1) {
 				if (Cache)
 					iUnCache();
 				return IL_FALSE;
@@ -403,6 +402,11 @@ ILboolean iReadNonRleSgi(iSgiHeader *Head)
 	if (Cache)
 		iUnCache();
 
+	#ifdef __LITTLE_ENDIAN__
+	if (Head->Bpc == 2)
+		sgiSwitchData(iCurImage->Data, iCurImage->SizeOfData);
+	#endif
+
 	return IL_TRUE;
 }
 
@@ -442,24 +446,21 @@ void sgiSwitchData(ILubyte *Data, ILuint SizeOfData)
 // Just an internal convenience function for reading SGI files
 ILboolean iNewSgi(iSgiHeader *Head)
 {
-	if (!ilTexImage(Head->XSize, Head->YSize, Head->Bpc, (ILubyte)Head->ZSize, 0, IL_UNSIGNED_BYTE, NULL)) {
-		return IL_FALSE;
-	}
-	iCurImage->Origin = IL_ORIGIN_LOWER_LEFT;
+	ILenum Format, Type;
 
 	switch (Head->ZSize)
 	{
 		case 1:
-			iCurImage->Format = IL_LUMINANCE;
+			Format = IL_LUMINANCE;
 			break;
 		/*case 2:
-			iCurImage->Format = IL_LUMINANCE_ALPHA; 
+			Format = IL_LUMINANCE_ALPHA; 
 			break;*/
 		case 3:
-			iCurImage->Format = IL_RGB;
+			Format = IL_RGB;
 			break;
 		case 4:
-			iCurImage->Format = IL_RGBA;
+			Format = IL_RGBA;
 			break;
 		default:
 			ilSetError(IL_ILLEGAL_FILE_VALUE);
@@ -470,21 +471,24 @@ ILboolean iNewSgi(iSgiHeader *Head)
 	{
 		case 1:
 			if (Head->PixMin < 0)
-				iCurImage->Type = IL_BYTE;
+				Type = IL_BYTE;
 			else
-				iCurImage->Type = IL_UNSIGNED_BYTE;
+				Type = IL_UNSIGNED_BYTE;
 			break;
 		case 2:
 			if (Head->PixMin < 0)
-				iCurImage->Type = IL_SHORT;
+				Type = IL_SHORT;
 			else
-				iCurImage->Type = IL_UNSIGNED_SHORT;
+				Type = IL_UNSIGNED_SHORT;
 			break;
 		default:
 			ilSetError(IL_ILLEGAL_FILE_VALUE);
 			return IL_FALSE;
 	}
 
+	if (!ilTexImage(Head->XSize, Head->YSize, 1, (ILubyte)Head->ZSize, Format, Type, NULL)) {
+		return IL_FALSE;
+	}
 	iCurImage->Origin = IL_ORIGIN_LOWER_LEFT;
 
 	return IL_TRUE;
@@ -587,23 +591,20 @@ ILboolean iSaveSgiInternal()
 		Temp = iConvertImage(iCurImage, iCurImage->Format, DetermineSgiType(iCurImage->Type));
 	}
 	
-	//compression of images with 2 bytes per channel doesn't work yet
-	Compress = iGetInt(IL_SGI_RLE) && Temp->Bpc == 1;
-
 	if (Temp == NULL)
 		return IL_FALSE;
 
+	//compression of images with 2 bytes per channel doesn't work yet
+	Compress = iGetInt(IL_SGI_RLE) && Temp->Bpc == 1;
+
 	SaveBigUShort(SGI_MAGICNUM);  // 'Magic' number
 	if (Compress)
 		iputc(1);
 	else
 		iputc(0);
 
-	if (Temp->Type == IL_UNSIGNED_BYTE)
-		iputc(1);
-	else if (Temp->Type == IL_UNSIGNED_SHORT)
-		iputc(2);
-	// Need to error here if not one of the two...
+	// Either 1 or 2 bytes per channel, see DetermineSgiType
+	iputc(Temp->Bpc);
 
 	if (Temp->Format == IL_LUMINANCE || Temp->Format == IL_COLOUR_INDEX)
 		SaveBigUShort(2);
@@ -638,7 +639,7 @@ ILboolean iSaveSgiInternal()
 
 	if (FName) {
 		c = ilCharStrLen(FName);
-		c = c < 79 ? 79 : c;
+		c = c < 79 ? c : 79;
 		iwrite(FName, 1, c);
 		c = 80 - c;
 		for (i = 0; i < c; i++) {
@@ -674,8 +675,12 @@ ILboolean iSaveSgiInternal()
 
 	if (!Compress) {
 		for (c = 0; c < Temp->Bpp; c++) {
-			for (i = c; i < Temp->SizeOfData; i += Temp->Bpp) {
-				iputc(TempData[i]);  // Have to save each colour plane separately.
+			for (i = c; i < Temp->SizeOfData / Temp->Bpc; i += Temp->Bpp) {
+				// Have to save each colour plane separately.
+				if (Temp->Bpc == 2)
+					SaveBigUShort(((ILushort*)TempData)[i]);
+				else
+					iputc(TempData[i]);
 			}
 		}
 	}
@@ -748,6 +753,7 @@ ILboolean iSaveRleSgi(ILubyte *Data, ILuint w, ILuint h, ILuint numChannels,
 
 	iwrite(StartTable, sizeof(ILuint), h * numChannels);
 	iwrite(LenTable, sizeof(ILuint), h * numChannels);
+	iseekw(DataOff, IL_SEEK_SET);  // Leave the position at the end of the data.
 
 	ifree(ScanLine);
 	ifree(CompLine);
-- 
2.43.0


From 78aab9cdb86d09cc7925ab162ded665be419577b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:36 +0000
Subject: [PATCH 008/115] fix: saving SGI read a file name that the caller of
 ilIsValid had owned

---
 DevIL/src-IL/src/il_sgi.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/DevIL/src-IL/src/il_sgi.cpp b/DevIL/src-IL/src/il_sgi.cpp
index 6adf032..a72fb56 100644
--- a/DevIL/src-IL/src/il_sgi.cpp
+++ b/DevIL/src-IL/src/il_sgi.cpp
@@ -30,8 +30,6 @@ ILboolean ilIsValidSgi(ILconst_string FileName)
 		return bSgi;
 	}
 
-	FName = (char*)FileName;
-
 	SgiFile = iopenr(FileName);
 	if (SgiFile == NULL) {
 		ilSetError(IL_COULD_NOT_OPEN_FILE);
-- 
2.43.0


From 2b34297543503d92d92ceb830482cdfd63597f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:33 +0000
Subject: [PATCH 009/115] fix: PCX and PSD: palettes, alpha, padding and sizes
 were written or read wrongly, malformed files were not checked

---
 DevIL/src-IL/src/il_pcx.cpp | 102 +++++++++++++----------
 DevIL/src-IL/src/il_psd.cpp | 159 +++++++++++++++++++++++++++---------
 2 files changed, 179 insertions(+), 82 deletions(-)

diff --git a/DevIL/src-IL/src/il_pcx.cpp b/DevIL/src-IL/src/il_pcx.cpp
index 1ab0210..dfc9f09 100644
--- a/DevIL/src-IL/src/il_pcx.cpp
+++ b/DevIL/src-IL/src/il_pcx.cpp
@@ -115,7 +115,10 @@ ILboolean iCheckPcx(PCXHEAD *Header)
 	// Try to support all pcx versions, as they only differ in allowed formats...
 	// Let's hope it works.
 	if(Header->Version != 5 && Header->Version != 0 && Header->Version != 2 &&
-		 Header->VDpi != 3 && Header->VDpi != 4)
+		 Header->Version != 3 && Header->Version != 4)
+		return IL_FALSE;
+
+	if (Header->Xmax < Header->Xmin || Header->Ymax < Header->Ymin)
 		return IL_FALSE;
 
 	// See if the padding size is correct
@@ -130,6 +133,9 @@ ILboolean iCheckPcx(PCXHEAD *Header)
 				return IL_FALSE;
 		}
 	}
+	else if (Header->Bps * 8 < Test) {  // The lines have to hold all pixels.
+		return IL_FALSE;
+	}
 
 	/* for (i = 0; i < 54; i++) { useless check
 		if (Header->Filler[i] != 0)
@@ -228,6 +234,11 @@ ILboolean iUncompressPcx(PCXHEAD *Header)
 		return iUncompressSmall(Header);
 	}
 
+	if (Header->NumPlanes != 1 && Header->NumPlanes != 3 && Header->NumPlanes != 4) {
+		ilSetError(IL_ILLEGAL_FILE_VALUE);
+		return IL_FALSE;
+	}
+
 	if (!ilTexImage(Header->Xmax - Header->Xmin + 1, Header->Ymax - Header->Ymin + 1, 1, Header->NumPlanes, 0, IL_UNSIGNED_BYTE, NULL))
 		return IL_FALSE;
 	iCurImage->Origin = IL_ORIGIN_UPPER_LEFT;
@@ -240,8 +251,13 @@ ILboolean iUncompressPcx(PCXHEAD *Header)
 			iCurImage->Pal.PalSize = 256 * 3;  // Need to find out for sure...
 			iCurImage->Pal.Palette = (ILubyte*)ialloc(iCurImage->Pal.PalSize);
 			if (iCurImage->Pal.Palette == NULL) {
+				iCurImage->Pal.PalSize = 0;
+				iCurImage->Pal.PalType = IL_PAL_NONE;
 				return IL_FALSE;
 			}
+			// Files older than version 5 have no palette of 256 colours.
+			for (i = 0; i < 256; i++)
+				memset(iCurImage->Pal.Palette + i * 3, i, 3);
 			break;
 		//case 2:  // No 16-bit images in the pcx format!
 		case 3:
@@ -324,6 +340,7 @@ ILboolean iUncompressPcx(PCXHEAD *Header)
 			iCurImage->Format = IL_LUMINANCE;
 			if (iCurImage->Pal.Palette)
 				ifree(iCurImage->Pal.Palette);
+			iCurImage->Pal.Palette = NULL;
 			iCurImage->Pal.PalSize = 0;
 			iCurImage->Pal.PalType = IL_PAL_NONE;
 		}
@@ -353,28 +370,26 @@ ILboolean iUncompressSmall(PCXHEAD *Header)
 	ILuint	i = 0, j, k, c, d, x, y, Bps;
 	ILubyte	HeadByte, Colour, Data = 0, *ScanLine;
 
-	if (!ilTexImage(Header->Xmax - Header->Xmin + 1, Header->Ymax - Header->Ymin + 1, 1, 1, 0, IL_UNSIGNED_BYTE, NULL)) {
+	if (Header->NumPlanes != 1 && Header->NumPlanes != 4) {
+		ilSetError(IL_ILLEGAL_FILE_VALUE);
+		return IL_FALSE;
+	}
+	if (Header->Bpp != 1) {
+		ilSetError(IL_FORMAT_NOT_SUPPORTED);
 		return IL_FALSE;
 	}
-	iCurImage->Origin = IL_ORIGIN_UPPER_LEFT;
 
-	switch (Header->NumPlanes)
-	{
-		case 1:
-			iCurImage->Format = IL_LUMINANCE;
-			break;
-		case 4:
-			iCurImage->Format = IL_COLOUR_INDEX;
-			break;
-		default:
-			ilSetError(IL_ILLEGAL_FILE_VALUE);
-			return IL_FALSE;
+	if (!ilTexImage(Header->Xmax - Header->Xmin + 1, Header->Ymax - Header->Ymin + 1, 1, 1, 0, IL_UNSIGNED_BYTE, NULL)) {
+		return IL_FALSE;
 	}
+	iCurImage->Origin = IL_ORIGIN_UPPER_LEFT;
+	iCurImage->Format = IL_LUMINANCE;
 
 	if (Header->NumPlanes == 1 && Header->Bpp == 1) {
 		for (j = 0; j < iCurImage->Height; j++) {
 			i = 0; //number of written pixels
-			while (i < iCurImage->Width) {
+			x = 0; //number of decoded bytes: a line has Header->Bps of them, including the padding
+			while (x < Header->Bps) {
 				if (iread(&HeadByte, 1, 1) != 1)
 					return IL_FALSE;
 				if (HeadByte >= 192) {
@@ -382,6 +397,7 @@ ILboolean iUncompressSmall(PCXHEAD *Header)
 					if (iread(&Data, 1, 1) != 1)
 						return IL_FALSE;
 
+					x += HeadByte;
 					for (c = 0; c < HeadByte; c++) {
 						k = 128;
 						for (d = 0; d < 8 && i < iCurImage->Width; d++) {
@@ -391,6 +407,7 @@ ILboolean iUncompressSmall(PCXHEAD *Header)
 					}
 				}
 				else {
+					x++;
 					k = 128;
 					for (c = 0; c < 8 && i < iCurImage->Width; c++) {
 						iCurImage->Data[j * iCurImage->Width + i++] = ((HeadByte & k) != 0 ? 255 : 0);
@@ -398,30 +415,21 @@ ILboolean iUncompressSmall(PCXHEAD *Header)
 					}
 				}
 			}
-
-			//if(Data != 0)
-			//changed 2003-09-01:
-			//There has to be an even number of bytes per line in a pcx.
-			//One byte can hold up to 8 bits, so Width/8 bytes
-			//are needed to hold a 1 bit per pixel image line.
-			//If Width/8 is even no padding is needed,
-			//one pad byte has to be read otherwise.
-			//(let's hope the above is true ;-))
-			if(!((iCurImage->Width >> 3) & 0x1))
-				igetc();	// Skip pad byte
 		}
 	}
 	else if (Header->NumPlanes == 4 && Header->Bpp == 1){   // 4-bit images
 		//changed decoding 2003-09-10 (was buggy)...could need a speedup
 
 		Bps = Header->Bps * Header->NumPlanes * 8;
-		iCurImage->Pal.Palette = (ILubyte*)ialloc(16 * 3);  // Size of palette always (48 bytes).
 		ScanLine = (ILubyte*)ialloc(Bps);
-		if (iCurImage->Pal.Palette == NULL || ScanLine == NULL) {
+		if (ScanLine == NULL)
+			return IL_FALSE;
+		iCurImage->Pal.Palette = (ILubyte*)ialloc(16 * 3);  // Size of palette always (48 bytes).
+		if (iCurImage->Pal.Palette == NULL) {
 			ifree(ScanLine);
-			ifree(iCurImage->Pal.Palette);
 			return IL_FALSE;
 		}
+		iCurImage->Format = IL_COLOUR_INDEX;
 		memcpy(iCurImage->Pal.Palette, Header->ColMap, 16 * 3);
 		iCurImage->Pal.PalSize = 16 * 3;
 		iCurImage->Pal.PalType = IL_PAL_RGB24;
@@ -544,6 +552,11 @@ ILboolean iSavePcxInternal()
 		return IL_FALSE;
 	}
 
+	if (iCurImage->Width > 0xFFFF || iCurImage->Height > 0xFFFF) {  // Does not fit in the header.
+		ilSetError(IL_ILLEGAL_OPERATION);
+		return IL_FALSE;
+	}
+
 	switch (iCurImage->Format)
 	{
 		case IL_LUMINANCE:
@@ -558,6 +571,8 @@ ILboolean iSavePcxInternal()
 				return IL_FALSE;
 			break;
 
+		case IL_ALPHA:
+		case IL_LUMINANCE_ALPHA:
 		case IL_BGRA:
 			TempImage = iConvertImage(iCurImage, IL_RGBA, IL_UNSIGNED_BYTE);
 			if (TempImage == NULL)
@@ -603,7 +618,7 @@ ILboolean iSavePcxInternal()
 	}
 	iputc(0x0);  // Reserved - always 0
 
-	iputc(iCurImage->Bpp);  // Number of planes - only 1 is supported right now
+	iputc(TempImage->Bpp);  // Number of planes - only 1 is supported right now
 
 	SaveLittleUShort((ILushort)(iCurImage->Width & 1 ? iCurImage->Width + 1 : iCurImage->Width));  // Bps
 	SaveLittleUShort(0x1);  // Palette type - ignored?
@@ -620,15 +635,16 @@ ILboolean iSavePcxInternal()
 		}
 	}
 
-	// Automatically assuming we have a palette...dangerous!
-	//	Also assuming 3 bpp palette
-	iputc(0xC);  // Pad byte must have this value
-
 	// If the current image has a palette, take care of it
 	if (TempImage->Format == IL_COLOUR_INDEX) {
+		iputc(0xC);  // Pad byte must have this value
+
 		// If the palette in .pcx format, write it directly
 		if (TempImage->Pal.PalType == IL_PAL_RGB24) {
-			iwrite(TempImage->Pal.Palette, 1, TempImage->Pal.PalSize);
+			PalSize = TempImage->Pal.PalSize;
+			if (PalSize > 768)
+				PalSize = 768;
+			iwrite(TempImage->Pal.Palette, 1, PalSize);
 		}
 		else {
 			TempPal = iConvertPal(&TempImage->Pal, IL_PAL_RGB24);
@@ -640,19 +656,21 @@ ILboolean iSavePcxInternal()
 				return IL_FALSE;
 			}
 
-			iwrite(TempPal->Palette, 1, TempPal->PalSize);
+			PalSize = TempPal->PalSize;
+			if (PalSize > 768)
+				PalSize = 768;
+			iwrite(TempPal->Palette, 1, PalSize);
 			ifree(TempPal->Palette);
 			ifree(TempPal);
 		}
-	}
 
-	// If the palette is not all 256 colours, we have to pad it.
-	PalSize = 768 - iCurImage->Pal.PalSize;
-	for (i = 0; i < PalSize; i++) {
-		iputc(0x0);
+		// If the palette is not all 256 colours, we have to pad it.
+		for (i = PalSize; i < 768; i++) {
+			iputc(0x0);
+		}
 	}
 
-	if (TempImage->Origin == IL_ORIGIN_LOWER_LEFT)
+	if (TempImage->Origin != IL_ORIGIN_UPPER_LEFT)
 		ifree(TempData);
 	if (TempImage != iCurImage)
 		ilCloseImage(TempImage);
diff --git a/DevIL/src-IL/src/il_psd.cpp b/DevIL/src-IL/src/il_psd.cpp
index bd3e953..7be1fd1 100644
--- a/DevIL/src-IL/src/il_psd.cpp
+++ b/DevIL/src-IL/src/il_psd.cpp
@@ -31,11 +31,11 @@ static float ushort_to_float(ILushort val)
 
 static ILubyte float_to_ubyte(float val)
 {
-	return (ILubyte)(val * 255.0f);
+	return (ILubyte)(val * 255.0f + 0.5f);
 }
 static ILushort float_to_ushort(float val)
 {
-	return (ILushort)(val * 65535.0f);
+	return (ILushort)(val * 65535.0f + 0.5f);
 }
 
 
@@ -246,13 +246,13 @@ ILboolean ReadGrey(PSDHEAD *Head)
 	iseek(MiscInfo, IL_SEEK_CUR);
 
 	Compressed = GetBigUShort();
+	if (Compressed > 1) {  // 2 and 3 are zip compressed.
+		ilSetError(IL_FORMAT_NOT_SUPPORTED);
+		goto cleanup_error;
+	}
 
 	ChannelNum = Head->Channels;
 	Head->Channels = 1;  // Temporary to read only one channel...some greyscale .psd files have 2.
-	if (Head->Channels != 1) {
-		ilSetError(IL_FORMAT_NOT_SUPPORTED);
-		return IL_FALSE;
-	}
 	switch (Head->Depth)
 	{
 		case 8:
@@ -263,7 +263,7 @@ ILboolean ReadGrey(PSDHEAD *Head)
 			break;
 		default:
 			ilSetError(IL_FORMAT_NOT_SUPPORTED);
-			return IL_FALSE;
+			goto cleanup_error;
 	}
 
 	if (!ilTexImage(Head->Width, Head->Height, 1, 1, IL_LUMINANCE, Type, NULL))
@@ -289,7 +289,7 @@ ILboolean ReadIndexed(PSDHEAD *Head)
 	ILubyte		*Palette = NULL, *Resources = NULL;
 
 	ColorMode = GetBigUInt();  // Skip over the 'color mode data section'
-	if (ColorMode % 3 != 0) {
+	if (ColorMode == 0 || ColorMode > 768 || ColorMode % 3 != 0) {
 		ilSetError(IL_INVALID_FILE_HEADER);
 		return IL_FALSE;
 	}
@@ -302,7 +302,7 @@ ILboolean ReadIndexed(PSDHEAD *Head)
 	ResourceSize = GetBigUInt();  // Read the 'image resources section'
 	Resources = (ILubyte*)ialloc(ResourceSize);
 	if (Resources == NULL) {
-		return IL_FALSE;
+		goto cleanup_error;
 	}
 	if (iread(Resources, 1, ResourceSize) != ResourceSize)
 		goto cleanup_error;
@@ -313,6 +313,10 @@ ILboolean ReadIndexed(PSDHEAD *Head)
 	iseek(MiscInfo, IL_SEEK_CUR);
 
 	Compressed = GetBigUShort();
+	if (Compressed > 1) {  // 2 and 3 are zip compressed.
+		ilSetError(IL_FORMAT_NOT_SUPPORTED);
+		goto cleanup_error;
+	}
 	if (ieof())
 		goto cleanup_error;
 
@@ -327,6 +331,8 @@ ILboolean ReadIndexed(PSDHEAD *Head)
 
 	iCurImage->Pal.Palette = (ILubyte*)ialloc(ColorMode);
 	if (iCurImage->Pal.Palette == NULL) {
+		iCurImage->Pal.PalSize = 0;
+		iCurImage->Pal.PalType = IL_PAL_NONE;
 		goto cleanup_error;
 	}
 	iCurImage->Pal.PalSize = ColorMode;
@@ -344,7 +350,8 @@ ILboolean ReadIndexed(PSDHEAD *Head)
 	if (!PsdGetData(Head, iCurImage->Data, (ILboolean)Compressed))
 		goto cleanup_error;
 
-	ParseResources(ResourceSize, Resources);
+	if (!ParseResources(ResourceSize, Resources))
+		goto cleanup_error;
 	ifree(Resources);
 	Resources = NULL;
 
@@ -379,6 +386,10 @@ ILboolean ReadRGB(PSDHEAD *Head)
 	iseek(MiscInfo, IL_SEEK_CUR);
 
 	Compressed = GetBigUShort();
+	if (Compressed > 1) {  // 2 and 3 are zip compressed.
+		ilSetError(IL_FORMAT_NOT_SUPPORTED);
+		goto cleanup_error;
+	}
 
 	ChannelNum = Head->Channels;
 	if (Head->Channels == 3)
@@ -399,7 +410,7 @@ ILboolean ReadRGB(PSDHEAD *Head)
 	else
 	{
 		ilSetError(IL_FORMAT_NOT_SUPPORTED);
-		return IL_FALSE;
+		goto cleanup_error;
 	}
 
 	switch (Head->Depth)
@@ -412,7 +423,7 @@ ILboolean ReadRGB(PSDHEAD *Head)
 			break;
 		default:
 			ilSetError(IL_FORMAT_NOT_SUPPORTED);
-			return IL_FALSE;
+			goto cleanup_error;
 	}
 	if (!ilTexImage(Head->Width, Head->Height, 1, (Format==IL_RGB) ? 3 : 4, Format, Type, NULL))
 		goto cleanup_error;
@@ -436,6 +447,8 @@ ILboolean ReadCMYK(PSDHEAD *Head)
 	ILushort	Compressed;
 	ILenum		Format, Type;
 	ILubyte		*Resources = NULL, *KChannel = NULL;
+	ILushort	*ShortPtr, *KShort;
+	ILuint		K;
 
 	ColorMode = GetBigUInt();  // Skip over the 'color mode data section'
 	iseek(ColorMode, IL_SEEK_CUR);
@@ -452,6 +465,10 @@ ILboolean ReadCMYK(PSDHEAD *Head)
 	iseek(MiscInfo, IL_SEEK_CUR);
 
 	Compressed = GetBigUShort();
+	if (Compressed > 1) {  // 2 and 3 are zip compressed.
+		ilSetError(IL_FORMAT_NOT_SUPPORTED);
+		goto cleanup_error;
+	}
 
 	switch (Head->Channels)
 	{
@@ -467,7 +484,7 @@ ILboolean ReadCMYK(PSDHEAD *Head)
 			break;
 		default:
 			ilSetError(IL_FORMAT_NOT_SUPPORTED);
-			return IL_FALSE;
+			goto cleanup_error;
 	}
 	switch (Head->Depth)
 	{
@@ -479,7 +496,7 @@ ILboolean ReadCMYK(PSDHEAD *Head)
 			break;
 		default:
 			ilSetError(IL_FORMAT_NOT_SUPPORTED);
-			return IL_FALSE;
+			goto cleanup_error;
 	}
 	if (!ilTexImage(Head->Width, Head->Height, 1, (ILubyte)Head->Channels, Format, Type, NULL))
 		goto cleanup_error;
@@ -493,7 +510,21 @@ ILboolean ReadCMYK(PSDHEAD *Head)
 	if (!GetSingleChannel(Head, KChannel, (ILboolean)Compressed))
 		goto cleanup_error;
 
-	if (Format == IL_RGB) {
+	if (Type == IL_UNSIGNED_SHORT) {
+		ShortPtr = (ILushort*)iCurImage->Data;
+		KShort = (ILushort*)KChannel;
+		for (j = 0; j < Head->Width * Head->Height; j++) {
+			if (!Compressed)
+				BigUShort(&KShort[j]);
+			K = Format == IL_RGB ? KShort[j] : ShortPtr[3];
+			for (i = 0; i < 3; i++)
+				ShortPtr[i] = (ILushort)((ShortPtr[i] * K) >> 16);
+			if (Format == IL_RGBA)
+				ShortPtr[3] = KShort[j];  // Swap 'K' with alpha channel.
+			ShortPtr += iCurImage->Bpp;
+		}
+	}
+	else if (Format == IL_RGB) {
 		for (i = 0, j = 0; i < iCurImage->SizeOfData; i += 3, j++) {
 			iCurImage->Data[i  ] = (iCurImage->Data[i  ] * KChannel[j]) >> 8;
 			iCurImage->Data[i+1] = (iCurImage->Data[i+1] * KChannel[j]) >> 8;
@@ -530,9 +561,16 @@ ILuint *GetCompChanLen(PSDHEAD *Head)
 	ILushort	*RleTable;
 	ILuint		*ChanLen, c, i, j;
 
+	if (Head->Height > 0x7FFFFFFF / (ChannelNum * sizeof(ILushort))) {
+		ilSetError(IL_ILLEGAL_FILE_VALUE);
+		return NULL;
+	}
+
 	RleTable = (ILushort*)ialloc(Head->Height * ChannelNum * sizeof(ILushort));
 	ChanLen = (ILuint*)ialloc(ChannelNum * sizeof(ILuint));
 	if (RleTable == NULL || ChanLen == NULL) {
+		ifree(RleTable);
+		ifree(ChanLen);
 		return NULL;
 	}
 
@@ -582,7 +620,7 @@ static ILuint ReadCompressedChannel(const ILuint ChanLen, ILuint Size, ILubyte*
 		HeadByte = igetc();
 
 		if (HeadByte >= 0) {  //  && HeadByte <= 127
-			if (i + HeadByte > Size)
+			if (i + HeadByte + 1 > Size)
 			{
 				if (PreCache)
 					iUnCache();
@@ -653,11 +691,16 @@ ILboolean PsdGetData(PSDHEAD *Head, void *Buffer, ILboolean Compressed)
 	// @TODO: Add support for this in, though I have yet to run across a .psd
 	//	file that uses this.
 	if (Compressed && iCurImage->Type == IL_UNSIGNED_SHORT) {
+		ifree(Channel);
 		ilSetError(IL_FORMAT_NOT_SUPPORTED);
 		return IL_FALSE;
 	}
 
 	if (!Compressed) {
+		// Initialize the alpha channel to solid
+		if (Head->Channels >= 4)
+			memset(iCurImage->Data, 0xFF, iCurImage->SizeOfData);
+
 		if (iCurImage->Bpc == 1) {
 			for (c = 0; c < NumChan; c++) {
 				i = 0;
@@ -718,7 +761,11 @@ ILboolean PsdGetData(PSDHEAD *Head, void *Buffer, ILboolean Compressed)
 				for (y = 0; y < Head->Height * iCurImage->Bps; y += iCurImage->Bps) {
 					for (x = 0; x < iCurImage->Bps; x += iCurImage->Bpp, i++) {
 						float curVal = ushort_to_float(((ILushort*)iCurImage->Data)[y + x + 3]);
-						float newVal = ushort_to_float(ShortPtr[i]);
+						float newVal;
+					 #ifndef WORDS_BIGENDIAN
+						iSwapUShort(ShortPtr+i);
+					 #endif
+						newVal = ushort_to_float(ShortPtr[i]);
 						((ILushort*)iCurImage->Data)[y + x + 3] = float_to_ushort(curVal * newVal);
 					}
 				}
@@ -728,6 +775,8 @@ ILboolean PsdGetData(PSDHEAD *Head, void *Buffer, ILboolean Compressed)
 	}
 	else {
 		ChanLen = GetCompChanLen(Head);
+		if (ChanLen == NULL)
+			goto file_read_error;
 
 		Size = Head->Width * Head->Height;
 		for (c = 0; c < NumChan; c++) {
@@ -795,7 +844,7 @@ file_read_error:
 ILboolean ParseResources(ILuint ResourceSize, ILubyte *Resources)
 {
 	ILushort	ID;
-	ILubyte		NameLen;
+	ILuint		NameLen;
 	ILuint		Size;
 
 	if (Resources == NULL) {
@@ -810,17 +859,20 @@ ILboolean ParseResources(ILuint ResourceSize, ILubyte *Resources)
 		}
 		Resources += 4;
 
-		ID = *((ILushort*)Resources);
+		memcpy(&ID, Resources, sizeof(ID));
 		BigUShort(&ID);
 		Resources += 2;
 
 		NameLen = *Resources++;
 		// NameLen + the byte it occupies must be padded to an even number, so NameLen must be odd.
 		NameLen = NameLen + (NameLen & 1 ? 0 : 1);
+		// The name and the size have to be in the resources, too.
+		if (ResourceSize < 4 + 2 + 1 + NameLen + 4)
+			return IL_TRUE;
 		Resources += NameLen;
 
 		// Get the resource data size.
-		Size = *((ILuint*)Resources);
+		memcpy(&Size, Resources, sizeof(Size));
 		BigUInt(&Size);
 		Resources += 4;
 
@@ -829,6 +881,8 @@ ILboolean ParseResources(ILuint ResourceSize, ILubyte *Resources)
 		switch (ID)
 		{
 			case 0x040F:  // ICC Profile
+				if (Size == 0 || iCurImage->Profile != NULL)
+					break;
 				if (Size > ResourceSize) {  // Check to make sure we are not going past the end of Resources.
 					ilSetError(IL_ILLEGAL_FILE_VALUE);
 					return IL_FALSE;
@@ -847,6 +901,8 @@ ILboolean ParseResources(ILuint ResourceSize, ILubyte *Resources)
 
 		if (Size & 1)  // Must be an even number.
 			Size++;
+		if (Size > ResourceSize)
+			break;
 		ResourceSize -= Size;
 		Resources += Size;
 	}
@@ -879,6 +935,10 @@ ILboolean GetSingleChannel(PSDHEAD *Head, ILubyte *Buffer, ILboolean Compressed)
 			HeadByte = igetc();
 
 			if (HeadByte >= 0) {  //  && HeadByte <= 127
+				if (i + HeadByte + 1 > Head->Width * Head->Height) {
+					ilSetError(IL_ILLEGAL_FILE_VALUE);
+					return IL_FALSE;
+				}
 				if (iread(Buffer + i, HeadByte + 1, 1) != 1)
 					return IL_FALSE;
 				i += HeadByte + 1;
@@ -887,6 +947,10 @@ ILboolean GetSingleChannel(PSDHEAD *Head, ILubyte *Buffer, ILboolean Compressed)
 				Run = igetc();
 				if (Run == IL_EOF)
 					return IL_FALSE;
+				if (i + (-HeadByte + 1) > Head->Width * Head->Height) {
+					ilSetError(IL_ILLEGAL_FILE_VALUE);
+					return IL_FALSE;
+				}
 				memset(Buffer + i, Run, -HeadByte + 1);
 				i += -HeadByte + 1;
 			}
@@ -969,24 +1033,19 @@ ILboolean iSavePsdInternal()
 	}
 
 	Format = iCurImage->Format;
-	Type = iCurImage->Type;
-
-	// All of these comprise the actual signature.
-	iwrite(Signature, 1, 4);
-	SaveBigShort(1);
-	SaveBigInt(0);
-	SaveBigShort(0);
-
-	SaveBigShort(iCurImage->Bpp);
-	SaveBigInt(iCurImage->Height);
-	SaveBigInt(iCurImage->Width);
-	if (iCurImage->Bpc > 2)
-		Type = IL_UNSIGNED_SHORT;
+	Type = iCurImage->Bpc > 1 ? IL_UNSIGNED_SHORT : IL_UNSIGNED_BYTE;
 
-	if (iCurImage->Format == IL_BGR)
-		Format = IL_RGB;
-	else if (iCurImage->Format == IL_BGRA)
-		Format = IL_RGBA;
+	switch (iCurImage->Format)
+	{
+		case IL_BGR:
+			Format = IL_RGB;
+			break;
+		case IL_BGRA:
+		case IL_LUMINANCE_ALPHA:
+		case IL_ALPHA:
+			Format = IL_RGBA;
+			break;
+	}
 
 	if (Format != iCurImage->Format || Type != iCurImage->Type) {
 		TempImage = iConvertImage(iCurImage, Format, Type);
@@ -996,6 +1055,16 @@ ILboolean iSavePsdInternal()
 	else {
 		TempImage = iCurImage;
 	}
+
+	// All of these comprise the actual signature.
+	iwrite(Signature, 1, 4);
+	SaveBigShort(1);
+	SaveBigInt(0);
+	SaveBigShort(0);
+
+	SaveBigShort(TempImage->Bpp);
+	SaveBigInt(TempImage->Height);
+	SaveBigInt(TempImage->Width);
 	SaveBigShort((ILushort)(TempImage->Bpc * 8));
 
 	// @TODO:  Put the other formats here.
@@ -1013,6 +1082,8 @@ ILboolean iSavePsdInternal()
 			break;
 		default:
 			ilSetError(IL_INTERNAL_ERROR);
+			if (TempImage != iCurImage)
+				ilCloseImage(TempImage);
 			return IL_FALSE;
 	}
 
@@ -1020,18 +1091,25 @@ ILboolean iSavePsdInternal()
 		// @TODO: We're currently making a potentially fatal assumption that
 		//	iConvertImage was not called if the format is IL_COLOUR_INDEX.
 		TempPal = iConvertPal(&TempImage->Pal, IL_PAL_RGB24);
-		if (TempPal == NULL)
+		if (TempPal == NULL) {
+			if (TempImage != iCurImage)
+				ilCloseImage(TempImage);
 			return IL_FALSE;
+		}
 		SaveBigInt(768);
 
 		// Have to save the palette in a planar format.
 		for (c = 0; c < 3; c++) {
-			for (i = c; i < TempPal->PalSize; i += 3) {
+			for (i = c; i < TempPal->PalSize && i < 768; i += 3) {
 				iputc(TempPal->Palette[i]);
 			}
+			for (; i < 768; i += 3) {  // Always 256 entries
+				iputc(0);
+			}
 		}
 
 		ifree(TempPal->Palette);
+		ifree(TempPal);
 	}
 	else {
 		SaveBigInt(0);  // No colour mode data.
@@ -1046,7 +1124,8 @@ ILboolean iSavePsdInternal()
 	if (TempImage->Origin == IL_ORIGIN_LOWER_LEFT) {
 		TempData = iGetFlipped(TempImage);
 		if (TempData == NULL) {
-			ilCloseImage(TempImage);
+			if (TempImage != iCurImage)
+				ilCloseImage(TempImage);
 			return IL_FALSE;
 		}
 	}
-- 
2.43.0


From fcdc305c20e27d2945af5940e88a9d272815f62d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:20 +0000
Subject: [PATCH 010/115] fix: VTF and WBMP: wrong mipmap chain, DXT sizes and
 flipping; WBMP did not read through the I/O layer

---
 DevIL/src-IL/src/il_vtf.cpp  | 106 +++++++++++++++++++++++------------
 DevIL/src-IL/src/il_wbmp.cpp |  60 +++++++++++---------
 2 files changed, 106 insertions(+), 60 deletions(-)

diff --git a/DevIL/src-IL/src/il_vtf.cpp b/DevIL/src-IL/src/il_vtf.cpp
index af7c0ba..7880ff3 100644
--- a/DevIL/src-IL/src/il_vtf.cpp
+++ b/DevIL/src-IL/src/il_vtf.cpp
@@ -218,26 +218,29 @@ ILboolean ilLoadVtfL(const void *Lump, ILuint Size)
 ILboolean iLoadVtfInternal(void)
 {
 	ILboolean	bVtf = IL_TRUE;
-	ILimage		*Image, *BaseImage;
+	ILimage		*Image, *BaseImage, *FrameImage, *FaceImage;
 	ILenum		Format, Type;
 	ILint		Frame, Face, Mipmap;
 	ILuint		SizeOfData, Channels, k;
 	ILubyte		*CompData = NULL, SwapVal, *Data16Bit, *Temp, NumFaces;
 	VTFHEAD		Head;
-	ILuint		CurName;
+	ILint		i;
 
 	if (iCurImage == NULL) {
 		ilSetError(IL_ILLEGAL_OPERATION);
 		return IL_FALSE;
 	}
-	CurName = ilGetCurName();
-	
+
 	if (!iGetVtfHead(&Head))
 		return IL_FALSE;
 	if (!iCheckVtf(&Head)) {
 		ilSetError(IL_INVALID_FILE_HEADER);
 		return IL_FALSE;
 	}
+	if (Head.Frames == 0 || Head.MipmapCount == 0) {  // There would be no image at all.
+		ilSetError(IL_ILLEGAL_FILE_VALUE);
+		return IL_FALSE;
+	}
 
 	if (Head.Flags & TEXTUREFLAGS_ENVMAP) {
 		// If we have a spherical map in addition to the 6 sides of the cubemap, FirstFrame's bits
@@ -363,7 +366,8 @@ ILboolean iLoadVtfInternal(void)
 	// The origin should be in the upper left.
 	iCurImage->Origin = IL_ORIGIN_UPPER_LEFT;
 	// Create any mipmaps.
-	VtfInitFacesMipmaps(iCurImage, NumFaces, &Head);
+	if (!VtfInitFacesMipmaps(iCurImage, NumFaces, &Head))
+		return IL_FALSE;
 
 	// Create our animation chain
 	BaseImage = Image = iCurImage;  // Top-level image
@@ -376,7 +380,8 @@ ILboolean iLoadVtfInternal(void)
 		Image->Origin = IL_ORIGIN_UPPER_LEFT;
 
 		// Create our faces and mipmaps for each frame.
-		VtfInitFacesMipmaps(Image, NumFaces, &Head);
+		if (!VtfInitFacesMipmaps(Image, NumFaces, &Head))
+			return IL_FALSE;
 	}
 
 	// We want to put the smallest mipmap at the end, but it is first in the file, so we count backwards.
@@ -385,12 +390,15 @@ ILboolean iLoadVtfInternal(void)
 		for (Frame = 0; Frame < Head.Frames; Frame++) {
 			// @TODO: Cubemap faces are always in the same order?
 			for (Face = 0; Face < NumFaces; Face++) {
-				//@TODO: Would probably be quicker to do the linked list traversal manually here.
-				ilBindImage(CurName);
-				ilActiveImage(Frame);
-				ilActiveFace(Face);
-				ilActiveMipmap(Mipmap);
-				Image = iCurImage;
+				FrameImage = BaseImage;
+				for (i = 0; i < Frame; i++)
+					FrameImage = FrameImage->Next;
+				FaceImage = FrameImage;
+				for (i = 0; i < Face; i++)
+					FaceImage = FaceImage->Faces;
+				Image = FaceImage;
+				for (i = 0; i < Mipmap; i++)
+					Image = Image->Mipmaps;
 
 				switch (Head.HighResImageFormat)
 				{
@@ -398,55 +406,64 @@ ILboolean iLoadVtfInternal(void)
 					case IMAGE_FORMAT_DXT1:
 					case IMAGE_FORMAT_DXT1_ONEBITALPHA:
 						// The block size is 8.
-						SizeOfData = IL_MAX(Image->Width * Image->Height * Image->Depth / 2, 8);
-						CompData = (ILubyte*)ialloc(SizeOfData);  // Gives a 6:1 compression ratio (or 8:1 for DXT1 with alpha)
+						SizeOfData = ((Image->Width + 3) / 4) * ((Image->Height + 3) / 4) * Image->Depth * 8;
+						CompData = (ILubyte*)ialloc(SizeOfData);
 						if (CompData == NULL)
 							return IL_FALSE;
-						iread(CompData, 1, SizeOfData);
+						if (iread(CompData, 1, SizeOfData) != SizeOfData) {
+							bVtf = IL_FALSE;
+							break;
+						}
+						bVtf = DecompressDXT1(Image, CompData);
 						// Keep a copy of the DXTC data if the user wants it.
-						if (ilGetInteger(IL_KEEP_DXTC_DATA) == IL_TRUE) {
+						if (bVtf && ilGetInteger(IL_KEEP_DXTC_DATA) == IL_TRUE) {
 							Image->DxtcSize = SizeOfData;
 							Image->DxtcData = CompData;
-							Image->DxtcFormat = IL_DXT5;
+							Image->DxtcFormat = IL_DXT1;
 							CompData = NULL;
 						}
-						bVtf = DecompressDXT1(Image, CompData);
 						break;
 
 					// DXT3 compression
 					case IMAGE_FORMAT_DXT3:
 						// The block size is 16.
-						SizeOfData = IL_MAX(Image->Width * Image->Height * Image->Depth, 16);
-						CompData = (ILubyte*)ialloc(SizeOfData);  // Gives a 4:1 compression ratio
+						SizeOfData = ((Image->Width + 3) / 4) * ((Image->Height + 3) / 4) * Image->Depth * 16;
+						CompData = (ILubyte*)ialloc(SizeOfData);
 						if (CompData == NULL)
 							return IL_FALSE;
-						iread(CompData, 1, SizeOfData);
+						if (iread(CompData, 1, SizeOfData) != SizeOfData) {
+							bVtf = IL_FALSE;
+							break;
+						}
+						bVtf = DecompressDXT3(Image, CompData);
 						// Keep a copy of the DXTC data if the user wants it.
-						if (ilGetInteger(IL_KEEP_DXTC_DATA) == IL_TRUE) {
+						if (bVtf && ilGetInteger(IL_KEEP_DXTC_DATA) == IL_TRUE) {
 							Image->DxtcSize = SizeOfData;
 							Image->DxtcData = CompData;
 							Image->DxtcFormat = IL_DXT3;
 							CompData = NULL;
 						}
-						bVtf = DecompressDXT3(Image, CompData);
 						break;
 
 					// DXT5 compression
 					case IMAGE_FORMAT_DXT5:
 						// The block size is 16.
-						SizeOfData = IL_MAX(Image->Width * Image->Height * Image->Depth, 16);
-						CompData = (ILubyte*)ialloc(SizeOfData);  // Gives a 4:1 compression ratio
+						SizeOfData = ((Image->Width + 3) / 4) * ((Image->Height + 3) / 4) * Image->Depth * 16;
+						CompData = (ILubyte*)ialloc(SizeOfData);
 						if (CompData == NULL)
 							return IL_FALSE;
-						iread(CompData, 1, SizeOfData);
+						if (iread(CompData, 1, SizeOfData) != SizeOfData) {
+							bVtf = IL_FALSE;
+							break;
+						}
+						bVtf = DecompressDXT5(Image, CompData);
 						// Keep a copy of the DXTC data if the user wants it.
-						if (ilGetInteger(IL_KEEP_DXTC_DATA) == IL_TRUE) {
+						if (bVtf && ilGetInteger(IL_KEEP_DXTC_DATA) == IL_TRUE) {
 							Image->DxtcSize = SizeOfData;
 							Image->DxtcData = CompData;
 							Image->DxtcFormat = IL_DXT5;
 							CompData = NULL;
 						}
-						bVtf = DecompressDXT5(Image, CompData);
 						break;
 
 					// Uncompressed BGR(A) data (24-bit and 32-bit)
@@ -567,7 +584,7 @@ ILboolean iLoadVtfInternal(void)
 							Image->Data[k+1] = ((Data16Bit[0] & 0xE0) >> 2) | ((Data16Bit[1] & 0x03) << 6);
 							Image->Data[k+2] =  (Data16Bit[1] & 0x7C) << 1;
 							// 1-bit alpha is either off or on.
-							Image->Data[k+3] = ((Data16Bit[0] & 0x80) == 0x80) ? 0xFF : 0x00;
+							Image->Data[k+3] = ((Data16Bit[1] & 0x80) == 0x80) ? 0xFF : 0x00;
 							Data16Bit += 2;
 						}
 						break;
@@ -576,6 +593,8 @@ ILboolean iLoadVtfInternal(void)
 					case IMAGE_FORMAT_BGRX5551:
 						SizeOfData = Image->Width * Image->Height * Image->Depth * 2;
 						Data16Bit = CompData = (ILubyte*)ialloc(SizeOfData);  // Not compressed data
+						if (CompData == NULL)
+							return IL_FALSE;
 						if (iread(CompData, 1, SizeOfData) != SizeOfData) {
 							bVtf = IL_FALSE;
 							break;
@@ -617,7 +636,6 @@ ILboolean iLoadVtfInternal(void)
 		}
 	}
 
-	ilBindImage(CurName);  // Set to parent image first.
 	return ilFixImage();
 }
 
@@ -652,7 +670,8 @@ ILboolean VtfInitFacesMipmaps(ILimage *BaseImage, ILuint NumFaces, VTFHEAD *Head
 	ILuint	Face;
 
 	// Initialize mipmaps under the base image.
-	VtfInitMipmaps(BaseImage, Header);
+	if (!VtfInitMipmaps(BaseImage, Header))
+		return IL_FALSE;
 	Image = BaseImage;
 
 	// We have an environment map.
@@ -672,7 +691,8 @@ ILboolean VtfInitFacesMipmaps(ILimage *BaseImage, ILuint NumFaces, VTFHEAD *Head
 		Image->CubeFlags = GetFaceFlag(Face);
 
 		// Now we can initialize the mipmaps under each face.
-		VtfInitMipmaps(Image, Header);
+		if (!VtfInitMipmaps(Image, Header))
+			return IL_FALSE;
 	}
 
 	return IL_TRUE;
@@ -712,6 +732,14 @@ ILboolean VtfInitMipmaps(ILimage *BaseImage, VTFHEAD *Header)
 
 ILboolean CheckDimensions()
 {
+	if (iCurImage == NULL) {
+		ilSetError(IL_ILLEGAL_OPERATION);
+		return IL_FALSE;
+	}
+	if (iCurImage->Width > 0xFFFF || iCurImage->Height > 0xFFFF) {  // Does not fit in the header.
+		ilSetError(IL_BAD_DIMENSIONS);
+		return IL_FALSE;
+	}
 	if ((ilNextPower2(iCurImage->Width) != iCurImage->Width) || (ilNextPower2(iCurImage->Height) != iCurImage->Height)) {
 		ilSetError(IL_BAD_DIMENSIONS);
 		return IL_FALSE;
@@ -827,7 +855,7 @@ ILboolean iSaveVtfInternal()
 			Format = IMAGE_FORMAT_RGBA16161616;
 		}
 		else if (TempImage->Type != IL_UNSIGNED_BYTE) {  //@TODO: Any possibility for shorts, etc. to be used?
-			TempImage = iConvertImage(iCurImage, Format, IL_UNSIGNED_BYTE);
+			TempImage = iConvertImage(iCurImage, iCurImage->Format, IL_UNSIGNED_BYTE);
 			if (TempImage == NULL)
 				return IL_FALSE;
 		}
@@ -853,7 +881,8 @@ ILboolean iSaveVtfInternal()
 	if (TempImage->Origin != IL_ORIGIN_UPPER_LEFT) {
 		TempData = iGetFlipped(TempImage);
 		if (TempData == NULL) {
-			ilCloseImage(TempImage);
+			if (TempImage != iCurImage)
+				ilCloseImage(TempImage);
 			return IL_FALSE;
 		}
 	} else {
@@ -905,8 +934,13 @@ ILboolean iSaveVtfInternal()
 
 	if (Compression == IL_DXT_NO_COMP) {
 		// We just write the image data directly.
-		if (iwrite(TempImage->Data, TempImage->SizeOfData, 1) != 1)
+		if (iwrite(TempData, TempImage->SizeOfPlane, 1) != 1) {
+			if (TempData != TempImage->Data)
+				ifree(TempData);
+			if (TempImage != iCurImage)
+				ilCloseImage(TempImage);
 			return IL_FALSE;
+		}
 	}
 	else {  // Do DXT compression here and write.
 		// We have to find out how much we are writing first.
@@ -928,6 +962,7 @@ ILboolean iSaveVtfInternal()
 		CompSize = ilGetDXTCData(CompData, CompSize, Compression);
 		if (CompSize == 0) {
 			ilSetError(IL_INTERNAL_ERROR);
+			ifree(CompData);
 			if (TempData != TempImage->Data)
 				ifree(TempData);
 			return IL_FALSE;
@@ -939,6 +974,7 @@ ILboolean iSaveVtfInternal()
 				ifree(TempData);
 			return IL_FALSE;
 		}
+		ifree(CompData);
 	}
 
 	if (TempData != TempImage->Data)
diff --git a/DevIL/src-IL/src/il_wbmp.cpp b/DevIL/src-IL/src/il_wbmp.cpp
index 2bf07d5..44094c0 100755
--- a/DevIL/src-IL/src/il_wbmp.cpp
+++ b/DevIL/src-IL/src/il_wbmp.cpp
@@ -68,9 +68,8 @@ ILboolean ilLoadWbmpL(const void *Lump, ILuint Size)
 
 ILboolean iLoadWbmpInternal(void)
 {
-	ILuint	Width, Height, BitPadding, i;
-	BITFILE	*File;
-	ILubyte	Padding[8];
+	ILuint	Width, Height, i, j;
+	ILint	Cur = 0;
 
 	if (iCurImage == NULL) {
 		ilSetError(IL_ILLEGAL_OPERATION);
@@ -94,29 +93,19 @@ ILboolean iLoadWbmpInternal(void)
 		return IL_FALSE;
 	iCurImage->Origin = IL_ORIGIN_UPPER_LEFT;  // Always has origin in the upper left.
 
-	BitPadding = (8 - (Width % 8)) % 8;  // Has to be aligned on a byte boundary.  The rest is padding.
-	File = bfile(iGetFile());
-	if (File == NULL)
-		return IL_FALSE;  //@TODO: Error?
-
-	//@TODO: Do this without bread?  Would be faster, since we would not have to do
-	//  the second loop.
-
-	// Reads the bits
+	// Reads the bits: 1 is white, 0 is black, and each line starts on a byte boundary.
 	for (i = 0; i < iCurImage->Height; i++) {
-		bread(&iCurImage->Data[iCurImage->Width * i], 1, iCurImage->Width, File);
-		//bseek(File, BitPadding, IL_SEEK_CUR);  //@TODO: This function does not work correctly.
-		bread(Padding, 1, BitPadding, File);  // Skip padding bits.
-	}
-	// Converts bit value of 1 to white and leaves 0 at 0 (2-colour images only).
-	for (i = 0; i < iCurImage->SizeOfData; i++) {
-		if (iCurImage->Data[i] == 1)
-			iCurImage->Data[i] = 0xFF;  // White
+		for (j = 0; j < iCurImage->Width; j++) {
+			if (j % 8 == 0) {
+				Cur = igetc();
+				if (Cur == IL_EOF)
+					return IL_FALSE;
+			}
+			iCurImage->Data[iCurImage->Width * i + j] = (Cur & (0x80 >> (j % 8))) ? 0xFF : 0;
+		}
 	}
 
-	bclose(File);
-
-	return IL_TRUE;
+	return ilFixImage();
 }
 
 
@@ -222,8 +211,15 @@ ILboolean iSaveWbmpInternal()
 	ILimage	*TempImage = NULL;
 	ILuint	i, j;
 	ILint	k;
-	ILubyte	Val;
+	ILubyte	Val, White;
 	ILubyte	*TempData;
+	ILubyte	*Pal;
+	ILuint	PalBpp, Light[2];
+
+	if (iCurImage == NULL) {
+		ilSetError(IL_ILLEGAL_OPERATION);
+		return IL_FALSE;
+	}
 
 	iputc(0);  // First two header values
 	iputc(0);  //  must be 0.
@@ -250,13 +246,27 @@ ILboolean iSaveWbmpInternal()
 		TempData = TempImage->Data;
 	}
 
+	// The lighter of the two colours is white.  If there is just one colour, then it is the nearer of black and white.
+	Pal = TempImage->Pal.Palette;
+	PalBpp = ilGetBppPal(TempImage->Pal.PalType);
+	for (i = 0; i < 2; i++) {
+		if (Pal != NULL && PalBpp != 0 && (i + 1) * PalBpp <= TempImage->Pal.PalSize)
+			Light[i] = Pal[i * PalBpp] + Pal[i * PalBpp + 1] + Pal[i * PalBpp + 2];
+		else
+			Light[i] = 0;
+	}
+	if (Light[0] == Light[1])
+		White = Light[0] > 3 * 0x7F ? 2 : 3;  // All or none
+	else
+		White = Light[1] > Light[0] ? 1 : 0;
+
 	for (i = 0; i < TempImage->Height; i++) {
 		for (j = 0; j < TempImage->Width; j += 8) {
 			Val = 0;
 			for (k = 0; k < 8; k++) {
 				if (j + k < TempImage->Width) {
 					//Val |= ((TempData[TempImage->Width * i + j + k] > 0x7F) ? (0x80 >> k) : 0x00);
-					Val |= ((TempData[TempImage->Width * i + j + k] == 1) ? (0x80 >> k) : 0x00);
+					Val |= (White == 2 || TempData[TempImage->Width * i + j + k] == White) ? (0x80 >> k) : 0x00;
 				}
 			}
 			iputc(Val);
-- 
2.43.0


From b1e894d7d2591826df2e6decaf559c4f9ec5844a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:20 +0000
Subject: [PATCH 011/115] fix: TIFF: saving to memory failed, colours of the
 wrong image were swapped, 16 bit and grey images and later pages were misread

---
 DevIL/src-IL/src/il_tiff.cpp | 724 ++++++++++++++---------------------
 1 file changed, 292 insertions(+), 432 deletions(-)

diff --git a/DevIL/src-IL/src/il_tiff.cpp b/DevIL/src-IL/src/il_tiff.cpp
index d4253ba..e8ce758 100644
--- a/DevIL/src-IL/src/il_tiff.cpp
+++ b/DevIL/src-IL/src/il_tiff.cpp
@@ -39,7 +39,16 @@
 // No need for a separate header
 static ILboolean iLoadTiffInternal(void);
 static char*     iMakeString(void);
-static TIFF*     iTIFFOpen(char *Mode);
+
+// libtiff seeks and reads while it writes, which outputs such as lumps cannot do,
+//  so that a Tiff is put together here before it is written.
+typedef struct iTiffBuffer
+{
+	ILubyte	*Data;
+	ILuint	Size, Capacity, Pos;
+} iTiffBuffer;
+
+static TIFF*     iTIFFOpen(char *Mode, iTiffBuffer *Out);
 static ILboolean iSaveTiffInternal(/*ILconst_string Filename*/);
 
 /*----------------------------------------------------------------------------*/
@@ -256,24 +265,60 @@ ILboolean iLoadTiffInternal (TIFF* tif, ILimage* Image)
 ////
 
 
+// Position of the image in a bigger one in pixels, rounded to the nearest integer
+static ILuint iTiffOffset(TIFF *tif, ttag_t PosTag, ttag_t ResTag)
+{
+	ILfloat Position, Resolution;
+	ILdouble Offset;
+
+	if (TIFFGetField(tif, PosTag, &Position) == 0)
+		Position = 0;
+	if (TIFFGetField(tif, ResTag, &Resolution) == 0)
+		Resolution = 0;
+
+	Offset = (ILdouble)Position * Resolution + 0.49;
+	if (!(Offset >= 0.0 && Offset < 4294967296.0))
+		return 0;
+	return (ILuint)Offset;
+}
+
+
+// Makes room for one directory of the Tiff: the first one is the current image, the others follow it.
+static ILimage *iNewTiffPage(ILimage *Last, ILuint Width, ILuint Height, ILubyte Bpp, ILenum Format, ILenum Type)
+{
+	ILimage *Image;
+
+	if (Last == NULL) {
+		if (!ilTexImage(Width, Height, 1, Bpp, Format, Type, NULL))
+			return NULL;
+		Image = iCurImage;
+	}
+	else {
+		Image = ilNewImageFull(Width, Height, 1, Bpp, Format, Type, NULL);
+		if (Image == NULL)
+			return NULL;
+		Last->Next = Image;
+	}
+	memset(Image->Data, 0, Image->SizeOfData);
+
+	return Image;
+}
+
+
 // Internal function used to load the Tiff.
 ILboolean iLoadTiffInternal()
 {
 	TIFF	 *tif;
-	uint16	 photometric, planarconfig, orientation;
+	uint16	 photometric, planarconfig, orientation, sampleformat;
 	uint16	 samplesperpixel, bitspersample, *sampleinfo, extrasamples;
-	uint32	 w, h, d, linesize, tilewidth, tilelength;
-	ILubyte  *pImageData;
-	ILuint	 i, ProfileLen, DirCount = 0;
+	uint32	 w, h, x, y;
+	tsize_t	 linesize;
+	ILuint	 i, j, ProfileLen, DirCount = 0;
 	void	 *Buffer;
+	ILubyte  *Line, *Dat, Bit;
 	ILimage  *Image, *TempImage;
 	ILushort si;
-        ILfloat  x_position, x_resolution, y_position, y_resolution;
-	//TIFFRGBAImage img;
-	//char emsg[1024];
-
-	// to avoid high order bits garbage when used as shorts
-	w = h = d = linesize = tilewidth = tilelength = 0;
+	ILenum	 Format, Type;
 
 	if (iCurImage == NULL) {
 		ilSetError(IL_ILLEGAL_OPERATION);
@@ -287,7 +332,7 @@ ILboolean iLoadTiffInternal()
 	//TIFFSetWarningHandler(warningHandler);
 	//TIFFSetErrorHandler(errorHandler);
 
-	tif = iTIFFOpen((char*)"r");
+	tif = iTIFFOpen((char*)"r", NULL);
 	if (tif == NULL) {
 		ilSetError(IL_COULD_NOT_OPEN_FILE);
 		return IL_FALSE;
@@ -297,307 +342,157 @@ ILboolean iLoadTiffInternal()
 		DirCount++;
 	} while (TIFFReadDirectory(tif));
 
-	/*
-	 if (!ilTexImage(1, 1, 1, 1, IL_RGBA, IL_UNSIGNED_BYTE, NULL)) {
-		 TIFFClose(tif);
-		 return IL_FALSE;
-	}
-	Image = iCurImage;
-	for (i = 1; i < DirCount; i++) {
-		 Image->Next = ilNewImage(1, 1, 1, 1, 1);
-		if (Image->Next == NULL) {
+	Image = NULL;
+	for (i = 0; i < DirCount; i++) {
+		w = h = 0;
+		if (!TIFFSetDirectory(tif, (tdir_t)i) || !TIFFGetField(tif, TIFFTAG_IMAGEWIDTH, &w)
+			|| !TIFFGetField(tif, TIFFTAG_IMAGELENGTH, &h) || w == 0 || h == 0) {
+			ilSetError(IL_INVALID_FILE_HEADER);
 			TIFFClose(tif);
 			return IL_FALSE;
 		}
-		Image = Image->Next;
-	}
-	iCurImage->NumNext = DirCount - 1;
-	*/
-	Image = NULL;
-	for (i = 0; i < DirCount; i++) {
-		TIFFSetDirectory(tif, (tdir_t)i);
-		TIFFGetField(tif, TIFFTAG_IMAGEWIDTH,  &w);
-		TIFFGetField(tif, TIFFTAG_IMAGELENGTH, &h);
 
-		TIFFGetFieldDefaulted(tif, TIFFTAG_IMAGEDEPTH,		&d); //TODO: d is ignored...
+		samplesperpixel = bitspersample = 1;
+		extrasamples = 0;
+		sampleinfo = NULL;
+		orientation = ORIENTATION_TOPLEFT;
+		planarconfig = PLANARCONFIG_CONTIG;
+		sampleformat = SAMPLEFORMAT_UINT;
+		photometric = PHOTOMETRIC_MINISBLACK;
 		TIFFGetFieldDefaulted(tif, TIFFTAG_SAMPLESPERPIXEL, &samplesperpixel);
 		TIFFGetFieldDefaulted(tif, TIFFTAG_BITSPERSAMPLE,	&bitspersample);
 		TIFFGetFieldDefaulted(tif, TIFFTAG_EXTRASAMPLES,	&extrasamples, &sampleinfo);
 		TIFFGetFieldDefaulted(tif, TIFFTAG_ORIENTATION, 	&orientation);
-
-		linesize = (uint32)TIFFScanlineSize(tif);
-		
+		TIFFGetFieldDefaulted(tif, TIFFTAG_SAMPLEFORMAT,	&sampleformat);
 		//added 2003-08-31
 		//1 bpp tiffs are not neccessarily greyscale, they can
 		//have a palette (photometric == 3)...get this information
-		TIFFGetFieldDefaulted(tif, TIFFTAG_PHOTOMETRIC,  &photometric);
+		TIFFGetField(tif, TIFFTAG_PHOTOMETRIC,  &photometric);
 		TIFFGetFieldDefaulted(tif, TIFFTAG_PLANARCONFIG, &planarconfig);
 
+		linesize = TIFFScanlineSize(tif);
+
 		//special-case code for frequent data cases that may be read more
-		//efficiently than with the TIFFReadRGBAImage() interface.
-		
-		//added 2004-05-12
-		//Get tile sizes and use TIFFReadRGBAImage() for tiled images for now
-		tilewidth = w; tilelength = h;
-		TIFFGetFieldDefaulted(tif, TIFFTAG_TILEWIDTH,  &tilewidth);
-		TIFFGetFieldDefaulted(tif, TIFFTAG_TILELENGTH, &tilelength);
-
-
-		if (extrasamples == 0
-			&& samplesperpixel == 1  //luminance or palette
-			&& (bitspersample == 8 || bitspersample == 1 || bitspersample == 16)
-			&& (photometric == PHOTOMETRIC_MINISWHITE
-				|| photometric == PHOTOMETRIC_MINISBLACK
-				|| photometric == PHOTOMETRIC_PALETTE)
+		//efficiently (and without losing anything) than with the
+		//TIFFReadRGBAImage() interface.
+		Format = 0;
+		if (sampleformat == SAMPLEFORMAT_UINT
+			&& (bitspersample == 8 || bitspersample == 16 || (bitspersample == 1 && samplesperpixel == 1))
+			&& (planarconfig == PLANARCONFIG_CONTIG || samplesperpixel == 1)
 			&& (orientation == ORIENTATION_TOPLEFT || orientation == ORIENTATION_BOTLEFT)
-			&& tilewidth == w && tilelength == h
-			) {
-			ILubyte* strip;
-			tsize_t stripsize;
-			ILuint y;
-			uint32 rowsperstrip, j, linesread;
+			&& !TIFFIsTiled(tif)) {
+			if (photometric == PHOTOMETRIC_MINISBLACK || photometric == PHOTOMETRIC_MINISWHITE) {
+				if (samplesperpixel == 1)
+					Format = IL_LUMINANCE;
+				else if (samplesperpixel == 2)
+					Format = IL_LUMINANCE_ALPHA;
+			}
+			else if (photometric == PHOTOMETRIC_PALETTE) {
+				if (samplesperpixel == 1 && bitspersample <= 8)
+					Format = IL_COLOUR_INDEX;
+			}
+			else if (photometric == PHOTOMETRIC_RGB) {
+				if (samplesperpixel == 3)
+					Format = IL_RGB;
+				else if (samplesperpixel == 4)
+					Format = IL_RGBA;
+			}
+		}
 
+		if (Format != 0) {
 			//TODO: 1 bit/pixel images should not be stored as 8 bits...
 			//(-> add new format)
-			if (!Image) {
-				int type = IL_UNSIGNED_BYTE;
-				if (bitspersample == 16) type = IL_UNSIGNED_SHORT;
-				if (!ilTexImage(w, h, 1, 1, IL_LUMINANCE, type, NULL)) {
+			Type = bitspersample == 16 ? IL_UNSIGNED_SHORT : IL_UNSIGNED_BYTE;
+			Image = iNewTiffPage(Image, w, h, (ILubyte)samplesperpixel, Format, Type);
+			if (Image == NULL) {
+				TIFFClose(tif);
+				return IL_FALSE;
+			}
+			Image->Origin = orientation == ORIENTATION_TOPLEFT ? IL_ORIGIN_UPPER_LEFT : IL_ORIGIN_LOWER_LEFT;
+
+			if (Format == IL_COLOUR_INDEX) { //read palette
+				uint16 *red, *green, *blue;
+				uint32 count = 1 << bitspersample;
+
+				if (!TIFFGetField(tif, TIFFTAG_COLORMAP, &red, &green, &blue)) {
+					ilSetError(IL_INVALID_FILE_HEADER);
 					TIFFClose(tif);
 					return IL_FALSE;
 				}
-				Image = iCurImage;
-			}
-			else {
-				Image->Next = ilNewImage(w, h, 1, 1, 1);
-				if (Image->Next == NULL) {
+
+				Image->Pal.Palette = (ILubyte*)ialloc(count * 3);
+				if (Image->Pal.Palette == NULL) {
 					TIFFClose(tif);
 					return IL_FALSE;
 				}
-				Image = Image->Next;
-			}
-
-			if (photometric == PHOTOMETRIC_PALETTE) { //read palette
-				uint16 *red, *green, *blue;
-				//ILboolean is16bitpalette = IL_FALSE;
-				ILubyte *entry;
-				uint32 count = 1 << bitspersample, j;
-		
-				TIFFGetField(tif, TIFFTAG_COLORMAP, &red, &green, &blue);
-
-				Image->Format = IL_COLOUR_INDEX;
-				Image->Pal.PalSize = (count)*3;
+				Image->Pal.PalSize = count * 3;
 				Image->Pal.PalType = IL_PAL_RGB24;
-				Image->Pal.Palette = (ILubyte*)ialloc(Image->Pal.PalSize);
-				entry = Image->Pal.Palette;
 				for (j = 0; j < count; ++j) {
-					entry[0] = (ILubyte)(red[j] >> 8);
-					entry[1] = (ILubyte)(green[j] >> 8);
-					entry[2] = (ILubyte)(blue[j] >> 8);
-
-					entry += 3;
+					Image->Pal.Palette[j * 3    ] = (ILubyte)(red[j] >> 8);
+					Image->Pal.Palette[j * 3 + 1] = (ILubyte)(green[j] >> 8);
+					Image->Pal.Palette[j * 3 + 2] = (ILubyte)(blue[j] >> 8);
 				}
 			}
 
-			TIFFGetField(tif, TIFFTAG_ROWSPERSTRIP, &rowsperstrip);
-			stripsize = TIFFStripSize(tif);
-
-			strip = (ILubyte*)ialloc(stripsize);
-
-			if (bitspersample == 8 || bitspersample == 16) {
-				ILubyte *dat = Image->Data;
-				for (y = 0; y < h; y += rowsperstrip) {
-					//the last strip may contain less data if the image
-					//height is not evenly divisible by rowsperstrip
-					if (y + rowsperstrip > h) {
-						stripsize = linesize*(h - y);
-						linesread = h - y;
-					}
-					else
-						linesread = rowsperstrip;
-
-					if (TIFFReadEncodedStrip(tif, TIFFComputeStrip(tif, y, 0), strip, stripsize) == -1) {
-						ilSetError(IL_LIB_TIFF_ERROR);
-						ifree(strip);
-						TIFFClose(tif);
-						return IL_FALSE;
-					}
-
-					if (photometric == PHOTOMETRIC_MINISWHITE) { //invert channel
-						uint32 k, t2;
-						for (j = 0; j < linesread; ++j) {
-							t2 = j*linesize;
-							//this works for 16bit images as well: the two bytes
-							//making up a pixel can be inverted independently
-							for (k = 0; k < Image->Bps; ++k)
-								dat[k] = ~strip[t2 + k];
-							dat += w;
-						}
-					}
-					else
-						for(j = 0; j < linesread; ++j)
-							memcpy(&Image->Data[(y + j)*Image->Bps], &strip[j*linesize], Image->Bps);
-				}
+			if (linesize < (tsize_t)(bitspersample == 1 ? (w + 7) / 8 : Image->Bps)) {
+				ilSetError(IL_INVALID_FILE_HEADER);
+				TIFFClose(tif);
+				return IL_FALSE;
 			}
-			else if (bitspersample == 1) {
-				//TODO: add a native format to devil, so we don't have to
-				//unpack the values here
-				ILubyte mask, curr, *dat = Image->Data;
-				uint32 k, sx, t2;
-				for (y = 0; y < h; y += rowsperstrip) {
-					//the last strip may contain less data if the image
-					//height is not evenly divisible by rowsperstrip
-					if (y + rowsperstrip > h) {
-						stripsize = linesize*(h - y);
-						linesread = h - y;
-					}
-					else
-						linesread = rowsperstrip;
-
-					if (TIFFReadEncodedStrip(tif, TIFFComputeStrip(tif, y, 0), strip, stripsize) == -1) {
-						ilSetError(IL_LIB_TIFF_ERROR);
-						ifree(strip);
-						TIFFClose(tif);
-						return IL_FALSE;
-					}
-
-					for (j = 0; j < linesread; ++j) {
-						k = 0;
-						sx = 0;
-						t2 = j*linesize;
-						while (k < w) {
-							curr = strip[t2 + sx];
-							if (photometric == PHOTOMETRIC_MINISWHITE)
-								curr = ~curr;
-							for (mask = 0x80; mask != 0 && k < w; mask >>= 1){
-								if((curr & mask) != 0)
-									dat[k] = 255;
-								else
-									dat[k] = 0;
-								++k;
-							}
-							++sx;
-						}
-						dat += w;
-					}
-				}
+			Line = (ILubyte*)ialloc(linesize);
+			if (Line == NULL) {
+				TIFFClose(tif);
+				return IL_FALSE;
 			}
 
-			ifree(strip);
-
-			if(orientation == ORIENTATION_TOPLEFT)
-				Image->Origin = IL_ORIGIN_UPPER_LEFT;
-			else if(orientation == ORIENTATION_BOTLEFT)
-				Image->Origin = IL_ORIGIN_LOWER_LEFT;
-		}
-		//for 16bit rgb images:
-		else if (extrasamples == 0
-			&& samplesperpixel == 3
-			&& (bitspersample == 8 || bitspersample == 16)
-			&& photometric == PHOTOMETRIC_RGB
-			&& planarconfig == 1
-			&& (orientation == ORIENTATION_TOPLEFT || orientation == ORIENTATION_BOTLEFT)
-			&& tilewidth == w && tilelength == h
-			) {
-			ILubyte *strip, *dat;
-			tsize_t stripsize;
-			ILuint y;
-			uint32 rowsperstrip, j, linesread;
-
-			if (!Image) {
-				int type = IL_UNSIGNED_BYTE;
-				if (bitspersample == 16) type = IL_UNSIGNED_SHORT;
-				if(!ilTexImage(w, h, 1, 3, IL_RGB, type, NULL)) {
-					TIFFClose(tif);
-					return IL_FALSE;
-				}
-				Image = iCurImage;
-			}
-			else {
-				Image->Next = ilNewImage(w, h, 1, 1, 1);
-				if(Image->Next == NULL) {
+			for (y = 0; y < h; y++) {
+				if (TIFFReadScanline(tif, Line, y, 0) < 0) {
+					ilSetError(IL_LIB_TIFF_ERROR);
+					ifree(Line);
 					TIFFClose(tif);
 					return IL_FALSE;
 				}
-				Image = Image->Next;
-			}
-
-			TIFFGetField(tif, TIFFTAG_ROWSPERSTRIP, &rowsperstrip);
-			stripsize = TIFFStripSize(tif);
-
-			strip = (ILubyte*)ialloc(stripsize);
 
-			dat = Image->Data;
-			for (y = 0; y < h; y += rowsperstrip) {
-				//the last strip may contain less data if the image
-				//height is not evenly divisible by rowsperstrip
-				if (y + rowsperstrip > h) {
-					stripsize = linesize*(h - y);
-					linesread = h - y;
+				Dat = Image->Data + (size_t)y * Image->Bps;
+				if (bitspersample == 1) {
+					for (x = 0; x < w; x++) {
+						Bit = (Line[x >> 3] >> (7 - (x & 7))) & 1;
+						if (Format == IL_COLOUR_INDEX)
+							Dat[x] = Bit;
+						else
+							Dat[x] = (Bit != 0) != (photometric == PHOTOMETRIC_MINISWHITE) ? 255 : 0;
+					}
 				}
-				else
-					linesread = rowsperstrip;
-
-				if (TIFFReadEncodedStrip(tif, TIFFComputeStrip(tif, y, 0), strip, stripsize) == -1) {
-					ilSetError(IL_LIB_TIFF_ERROR);
-					ifree(strip);
-					TIFFClose(tif);
-					return IL_FALSE;
+				else {
+					memcpy(Dat, Line, Image->Bps);
+					if (photometric == PHOTOMETRIC_MINISWHITE) { //invert channel
+						//this works for 16bit images as well: the two bytes
+						//making up a sample can be inverted independently
+						for (x = 0; x < Image->Bps; x++) {
+							if (x % (samplesperpixel * Image->Bpc) < Image->Bpc)
+								Dat[x] = ~Dat[x];
+						}
+					}
 				}
-
-				for(j = 0; j < linesread; ++j)
-						memcpy(&Image->Data[(y + j)*Image->Bps], &strip[j*linesize], Image->Bps);
 			}
 
-			ifree(strip);
-			
-			if(orientation == ORIENTATION_TOPLEFT)
-				Image->Origin = IL_ORIGIN_UPPER_LEFT;
-			else if(orientation == ORIENTATION_BOTLEFT)
-				Image->Origin = IL_ORIGIN_LOWER_LEFT;
-		}/*
-		else if (extrasamples == 0 && samplesperpixel == 3  //rgb
-					&& (bitspersample == 8 || bitspersample == 1 || bitspersample == 16)
-					&& photometric == PHOTOMETRIC_RGB
-					&& (planarconfig == PLANARCONFIG_CONTIG || planarcon
-						&& (orientation == ORIENTATION_TOPLEFT || orientation == ORIENTATION_BOTLEFT)
-					) {
+			ifree(Line);
 		}
-				*/
 		else {
-				//not direclty supported format
-			if(!Image) {
-				if(!ilTexImage(w, h, 1, 4, IL_RGBA, IL_UNSIGNED_BYTE, NULL)) {
-					TIFFClose(tif);
-					return IL_FALSE;
-				}
-				Image = iCurImage;
-			}
-			else {
-				Image->Next = ilNewImage(w, h, 1, 4, 1);
-				if(Image->Next == NULL) {
-					TIFFClose(tif);
-					return IL_FALSE;
-				}
-				Image = Image->Next;
+			//not direclty supported format
+			Image = iNewTiffPage(Image, w, h, 4, IL_RGBA, IL_UNSIGNED_BYTE);
+			if (Image == NULL) {
+				TIFFClose(tif);
+				return IL_FALSE;
 			}
 
 			if (samplesperpixel == 4) {
-				TIFFGetFieldDefaulted(tif, TIFFTAG_EXTRASAMPLES, &extrasamples, &sampleinfo);
-				if (!sampleinfo || sampleinfo[0] == EXTRASAMPLE_UNSPECIFIED) {
+				if (extrasamples == 0 || !sampleinfo || sampleinfo[0] == EXTRASAMPLE_UNSPECIFIED) {
 					si = EXTRASAMPLE_ASSOCALPHA;
 					TIFFSetField(tif, TIFFTAG_EXTRASAMPLES, 1, &si);
 				}
 			}
-			/*
-			 if (!ilResizeImage(Image, Image->Width, Image->Height, 1, 4, 1)) {
-				 TIFFClose(tif);
-				 return IL_FALSE;
-			 }
-			 */
-			Image->Format = IL_RGBA;
-			Image->Type = IL_UNSIGNED_BYTE;
-	
+
 			// Siigron: added u_long cast to shut up compiler warning
 			//2003-08-31: changed flag from 1 (exit on error) to 0 (keep decoding)
 			//this lets me view text.tif, but can give crashes with unsupported
@@ -632,37 +527,22 @@ ILboolean iLoadTiffInternal()
 					else //strip alpha as tiff supports no alpha palettes
 						ilConvertImage(IL_RGB, IL_UNSIGNED_BYTE);
 					break;
-					
+
 				case 3:
 					//TODO: why the ifdef??
 #ifdef __LITTLE_ENDIAN__
 					ilConvertImage(IL_RGB, IL_UNSIGNED_BYTE);
-#endif			
-					break; 
-					
-				case 4:
-					pImageData = Image->Data;
-					//removed on 2003-08-26...why was this here? libtiff should and does
-					//take care of these things???
-					/*			
-					//invert alpha
-#ifdef __LITTLE_ENDIAN__
-					pImageData += 3;
-#endif			
-					for (i = Image->Width * Image->Height; i > 0; i--) {
-						*pImageData ^= 255;
-						pImageData += 4;
-					}
-					*/
+#endif
 					break;
 			}
 			iCurImage = TempImage;
-			
+
 		} //else not directly supported format
 
 		if (TIFFGetField(tif, TIFFTAG_ICCPROFILE, &ProfileLen, &Buffer)) {
 			if (Image->Profile && Image->ProfileSize)
 				ifree(Image->Profile);
+			Image->ProfileSize = 0;
 			Image->Profile = (ILubyte*)ialloc(ProfileLen);
 			if (Image->Profile == NULL) {
 				TIFFClose(tif);
@@ -676,39 +556,14 @@ ILboolean iLoadTiffInternal()
 			//_TIFFfree(Buffer);
 		}
 
-                // dangelo: read offset from tiff tags.
-                //If nothing is stored in these tags, then this must be an "uncropped" TIFF 
-                //file, in which case, the "full size" width/height is the same as the 
-                //"cropped" width and height
-                //
-                // the full size is currently not supported by DevIL
-                //if (TIFFGetField(tif, TIFFTAG_PIXAR_IMAGEFULLWIDTH, &(c->full_width)) ==
-                //        0)
-                //    (c->full_width = c->cropped_width);
-                //if (TIFFGetField(tif, TIFFTAG_PIXAR_IMAGEFULLLENGTH, &(c->full_height)) ==
-                //        0)
-                //    (c->full_height = c->cropped_height);
-
-                if (TIFFGetField(tif, TIFFTAG_XPOSITION, &x_position) == 0)
-                    x_position = 0;
-                if (TIFFGetField(tif, TIFFTAG_XRESOLUTION, &x_resolution) == 0)
-                    x_resolution = 0;
-                if (TIFFGetField(tif, TIFFTAG_YPOSITION, &y_position) == 0)
-                    y_position = 0;
-                if (TIFFGetField(tif, TIFFTAG_YRESOLUTION, &y_resolution) == 0)
-                    y_resolution = 0;
-
-                //offset in pixels of "cropped" image from top left corner of 
-                //full image (rounded to nearest integer)
-                Image->OffX = (uint32) ((x_position * x_resolution) + 0.49);
-                Image->OffY = (uint32) ((y_position * y_resolution) + 0.49);
-                
-
-		/*
-		 Image = Image->Next;
-		 if (Image == NULL)  // Should never happen except when we reach the end, but check anyway.
-		 break;
-		 */ 
+		// dangelo: read offset from tiff tags.
+		//If nothing is stored in these tags, then this must be an "uncropped" TIFF 
+		//file, in which case, the "full size" width/height is the same as the 
+		//"cropped" width and height
+		//
+		// the full size is currently not supported by DevIL
+		Image->OffX = iTiffOffset(tif, TIFFTAG_XPOSITION, TIFFTAG_XRESOLUTION);
+		Image->OffY = iTiffOffset(tif, TIFFTAG_YPOSITION, TIFFTAG_YRESOLUTION);
 	} //for tiff directories
 
 	TIFFClose(tif);
@@ -732,15 +587,18 @@ _tiffFileReadProc(thandle_t fd, tdata_t pData, tsize_t tSize)
 
 /*----------------------------------------------------------------------------*/
 
-// We have trouble sometimes reading when writing a file.  Specifically, the only time
-//  I have seen libtiff call this is at the beginning of writing a tiff, before
-//  anything is ever even written!  Also, we have to return 0, no matter what tSize
-//  is.  If we return tSize like would be expected, then TIFFClientOpen fails.
 static tsize_t 
 _tiffFileReadProcW(thandle_t fd, tdata_t pData, tsize_t tSize)
 {
-	fd;
-	return 0;
+	iTiffBuffer *Out = (iTiffBuffer*)fd;
+	ILuint Rest = Out->Pos < Out->Size ? Out->Size - Out->Pos : 0;
+
+	if ((ILuint64)tSize < Rest)
+		Rest = (ILuint)tSize;
+	memcpy(pData, Out->Data + Out->Pos, Rest);
+	Out->Pos += Rest;
+
+	return Rest;
 }
 
 /*----------------------------------------------------------------------------*/
@@ -748,8 +606,32 @@ _tiffFileReadProcW(thandle_t fd, tdata_t pData, tsize_t tSize)
 static tsize_t 
 _tiffFileWriteProc(thandle_t fd, tdata_t pData, tsize_t tSize)
 {
-	fd;
-	return iwrite(pData, 1, (ILuint)tSize);
+	iTiffBuffer *Out = (iTiffBuffer*)fd;
+	ILuint64 End = (ILuint64)Out->Pos + tSize, Capacity;
+	ILubyte *Data;
+
+	if (tSize < 0 || End > 0x7FFFFFFF)
+		return -1;
+	if (End > Out->Capacity) {
+		Capacity = End + End / 2 + 1024;
+		Data = (ILubyte*)ialloc((ILsizei)Capacity);
+		if (Data == NULL)
+			return -1;
+		if (Out->Data != NULL) {
+			memcpy(Data, Out->Data, Out->Size);
+			ifree(Out->Data);
+		}
+		Out->Data = Data;
+		Out->Capacity = (ILuint)Capacity;
+	}
+	if (Out->Pos > Out->Size)
+		memset(Out->Data + Out->Size, 0, Out->Pos - Out->Size);
+	memcpy(Out->Data + Out->Pos, pData, tSize);
+	Out->Pos = (ILuint)End;
+	if (Out->Pos > Out->Size)
+		Out->Size = Out->Pos;
+
+	return tSize;
 }
 
 /*----------------------------------------------------------------------------*/
@@ -772,13 +654,17 @@ _tiffFileSeekProc(thandle_t fd, toff_t tOff, int whence)
 static toff_t
 _tiffFileSeekProcW(thandle_t fd, toff_t tOff, int whence)
 {
-	/* we use this as a special code, so avoid accepting it */
-	if (tOff == 0xFFFFFFFF)
-		return 0xFFFFFFFF;
+	iTiffBuffer *Out = (iTiffBuffer*)fd;
+	ILint64 Pos = (ILint64)tOff;
 
-	iseekw((ILint)tOff, whence);
-	return itellw();
-	//return tOff;
+	if (whence == SEEK_CUR)
+		Pos += Out->Pos;
+	else if (whence == SEEK_END)
+		Pos += Out->Size;
+	if (Pos < 0 || Pos > 0x7FFFFFFF)
+		return (toff_t)-1;
+
+	return Out->Pos = (ILuint)Pos;
 }
 
 /*----------------------------------------------------------------------------*/
@@ -811,13 +697,7 @@ _tiffFileSizeProc(thandle_t fd)
 static toff_t
 _tiffFileSizeProcW(thandle_t fd)
 {
-	ILint Offset, Size;
-	Offset = itellw();
-	iseekw(0, IL_SEEK_END);
-	Size = itellw();
-	iseekw(Offset, IL_SEEK_SET);
-
-	return Size;
+	return ((iTiffBuffer*)fd)->Size;
 }
 
 /*----------------------------------------------------------------------------*/
@@ -846,13 +726,13 @@ _tiffDummyUnmapProc(thandle_t fd, tdata_t base, toff_t size)
 
 /*----------------------------------------------------------------------------*/
 
-TIFF *iTIFFOpen(char *Mode)
+TIFF *iTIFFOpen(char *Mode, iTiffBuffer *Out)
 {
 	TIFF *tif;
 
 	if (Mode[0] == 'w')
 		tif = TIFFClientOpen("TIFFMemFile", Mode,
-							NULL,
+							(thandle_t)Out,
 							_tiffFileReadProcW, _tiffFileWriteProc,
 							_tiffFileSeekProcW, _tiffFileCloseProc,
 							_tiffFileSizeProcW, _tiffDummyMapProc,
@@ -925,18 +805,29 @@ ILuint ilSaveTiffL(void *Lump, ILuint Size)
 
 // @TODO:  Accept palettes!
 
+static void iTiffSetString(TIFF *File, ttag_t Tag, ILenum Mode)
+{
+	char *Str = iGetString(Mode);
+
+	if (Str) {
+		TIFFSetField(File, Tag, Str);
+		ifree(Str);
+	}
+}
+
+
 // Internal function used to save the Tiff.
 ILboolean iSaveTiffInternal(/*ILconst_string Filename*/)
 {
-	ILenum	Format;
+	ILenum	Format, Type;
 	ILenum	Compression;
 	ILuint	ixLine;
 	TIFF	*File;
-	char	Description[512];
 	ILimage *TempImage;
-	const char	*str;
-	ILboolean SwapColors;
-	ILubyte *OldData;
+	ILubyte *Data;
+	iTiffBuffer Out;
+	ILboolean Ret = IL_FALSE;
+	ILushort si = EXTRASAMPLE_UNASSALPHA;
 
 	if(iCurImage == NULL) {
 		ilSetError(IL_ILLEGAL_OPERATION);
@@ -956,47 +847,63 @@ ILboolean iSaveTiffInternal(/*ILconst_string Filename*/)
 	else
 		Compression = COMPRESSION_NONE;
 
-	if (iCurImage->Format == IL_COLOUR_INDEX) {
-		if (ilGetBppPal(iCurImage->Pal.PalType) == 4)  // Preserve the alpha.
-			TempImage = iConvertImage(iCurImage, IL_RGBA, IL_UNSIGNED_BYTE);
-		else
-			TempImage = iConvertImage(iCurImage, IL_RGB, IL_UNSIGNED_BYTE);
-		
-		if (TempImage == NULL) {
+	// What is stored are unsigned samples of 8 or 16 bits.
+	Type = iCurImage->Bpc == 1 ? IL_UNSIGNED_BYTE : IL_UNSIGNED_SHORT;
+	switch (iCurImage->Format)
+	{
+		case IL_COLOUR_INDEX:
+			Type = IL_UNSIGNED_BYTE;
+			if (ilGetBppPal(iCurImage->Pal.PalType) == 4)  // Preserve the alpha.
+				Format = IL_RGBA;
+			else
+				Format = IL_RGB;
+			break;
+		case IL_BGR:
+			Format = IL_RGB;
+			break;
+		case IL_BGRA:
+		case IL_ALPHA:
+			Format = IL_RGBA;
+			break;
+		default:
+			Format = iCurImage->Format;
+	}
+
+	if (Format != iCurImage->Format || Type != iCurImage->Type) {
+		TempImage = iConvertImage(iCurImage, Format, Type);
+		if (TempImage == NULL)
 			return IL_FALSE;
-		}
 	}
 	else {
 		TempImage = iCurImage;
 	}
 
-	/*#ifndef _UNICODE
-		File = TIFFOpen(Filename, "w");
-	#else
-		File = TIFFOpenW(Filename, "w");
-	#endif*/
+	Data = TempImage->Data;
+	if (TempImage->Origin != IL_ORIGIN_UPPER_LEFT) {
+		Data = iGetFlipped(TempImage);
+		if (Data == NULL) {
+			if (TempImage != iCurImage)
+				ilCloseImage(TempImage);
+			return IL_FALSE;
+		}
+	}
 
 	// Control writing functions ourself.
-	File = iTIFFOpen((char*)"w");
+	memset(&Out, 0, sizeof(Out));
+	File = iTIFFOpen((char*)"w", &Out);
 	if (File == NULL) {
 		ilSetError(IL_COULD_NOT_OPEN_FILE);
-		return IL_FALSE;
+		goto finish;
 	}
 
-#ifdef _UNICODE
-	sprintf(Description, "Tiff generated by %Ls", ilGetString(IL_VERSION_NUM));
-#else// _UNICODE
-	sprintf(Description, "Tiff generated by %s", ilGetString(IL_VERSION_NUM));
-#endif// _UNICODE
-
 	TIFFSetField(File, TIFFTAG_IMAGEWIDTH, TempImage->Width);
 	TIFFSetField(File, TIFFTAG_IMAGELENGTH, TempImage->Height);
 	TIFFSetField(File, TIFFTAG_COMPRESSION, Compression);
-	TIFFSetField(File, TIFFTAG_PHOTOMETRIC, PHOTOMETRIC_RGB);
+	TIFFSetField(File, TIFFTAG_PHOTOMETRIC, TempImage->Bpp < 3 ? PHOTOMETRIC_MINISBLACK : PHOTOMETRIC_RGB);
 	TIFFSetField(File, TIFFTAG_BITSPERSAMPLE, TempImage->Bpc << 3);
 	TIFFSetField(File, TIFFTAG_SAMPLESPERPIXEL, TempImage->Bpp);
-	if (TempImage->Bpp == 4) //TODO: LUMINANCE, LUMINANCE_ALPHA
-		TIFFSetField(File, TIFFTAG_MATTEING, 1);
+	if (TempImage->Bpp == 2 || TempImage->Bpp == 4)
+		TIFFSetField(File, TIFFTAG_EXTRASAMPLES, 1, &si);
 	TIFFSetField(File, TIFFTAG_PLANARCONFIG, PLANARCONFIG_CONTIG);
 	TIFFSetField(File, TIFFTAG_ROWSPERSTRIP, 1);
 	TIFFSetField(File, TIFFTAG_SOFTWARE, ilGetString(IL_VERSION_NUM));  //@TODO: Will probably not work properly under Windows if Unicode
@@ -1004,30 +911,10 @@ ILboolean iSaveTiffInternal(/*ILconst_string Filename*/)
 		iGetString(IL_TIF_DOCUMENTNAME_STRING) ?
 		iGetString(IL_TIF_DOCUMENTNAME_STRING) : FileName);
 */
-	str = iGetString(IL_TIF_DOCUMENTNAME_STRING);
-	if (str) {
-		TIFFSetField(File, TIFFTAG_DOCUMENTNAME, str);
-		ifree(str);
-	}
-
-
-	str = iGetString(IL_TIF_AUTHNAME_STRING);
-	if (iGetString(IL_TIF_AUTHNAME_STRING)) {
-		TIFFSetField(File, TIFFTAG_ARTIST, str);
-		ifree(str);
-	}
-
-	str = iGetString(IL_TIF_HOSTCOMPUTER_STRING);
-	if (str) {
-		TIFFSetField(File, TIFFTAG_HOSTCOMPUTER, str);
-		ifree(str);
-	}
-
-	str = iGetString(IL_TIF_HOSTCOMPUTER_STRING);
-	if (str) {
-		TIFFSetField(File, TIFFTAG_IMAGEDESCRIPTION, str);
-		ifree(str);
-	}
+	iTiffSetString(File, TIFFTAG_DOCUMENTNAME, IL_TIF_DOCUMENTNAME_STRING);
+	iTiffSetString(File, TIFFTAG_ARTIST, IL_TIF_AUTHNAME_STRING);
+	iTiffSetString(File, TIFFTAG_HOSTCOMPUTER, IL_TIF_HOSTCOMPUTER_STRING);
+	iTiffSetString(File, TIFFTAG_IMAGEDESCRIPTION, IL_TIF_DESCRIPTION_STRING);
 
 	// Set the date and time string.
 	TIFFSetField(File, TIFFTAG_DATETIME, iMakeString());
@@ -1036,54 +923,27 @@ ILboolean iSaveTiffInternal(/*ILconst_string Filename*/)
 	// Orientation flag is not always supported (Photoshop, ...), orient the image data 
 	// and set it always to normal view
 	TIFFSetField(File, TIFFTAG_ORIENTATION, ORIENTATION_TOPLEFT);
-	if (TempImage->Origin != IL_ORIGIN_UPPER_LEFT) {
-		ILubyte* Data = iGetFlipped(TempImage);
-		OldData = TempImage->Data;
-		TempImage->Data = Data;
-	}
-	else
-		OldData = TempImage->Data;
-
-	/*
-	 TIFFSetField(File, TIFFTAG_ORIENTATION,
-				  TempImage->Origin == IL_ORIGIN_UPPER_LEFT ? ORIENTATION_TOPLEFT : ORIENTATION_BOTLEFT);
-	 */
-
-	Format = TempImage->Format;
-	SwapColors = (Format == IL_BGR || Format == IL_BGRA);
-	if (SwapColors)
- 		ilSwapColours();
 
 	for (ixLine = 0; ixLine < TempImage->Height; ++ixLine) {
-		if (TIFFWriteScanline(File, TempImage->Data + ixLine * TempImage->Bps, ixLine, 0) < 0) {
-			TIFFClose(File);
-			ilSetError(IL_LIB_TIFF_ERROR);
-			if (SwapColors)
-				ilSwapColours();
-			if (TempImage->Data != OldData) {
-				ifree( TempImage->Data );
-				TempImage->Data = OldData;
-			}
-			if (TempImage != iCurImage)
-				ilCloseImage(TempImage);
-			return IL_FALSE;
-		}
+		if (TIFFWriteScanline(File, Data + (size_t)ixLine * TempImage->Bps, ixLine, 0) < 0)
+			break;
 	}
 
-	if (SwapColors)
- 		ilSwapColours();
-
-	if (TempImage->Data != OldData) {
-		ifree(TempImage->Data);
-		TempImage->Data = OldData;
-	}
+	Ret = ixLine == TempImage->Height && TIFFFlush(File) == 1;
+	TIFFClose(File);
+	if (!Ret)
+		ilSetError(IL_LIB_TIFF_ERROR);
+	else
+		Ret = iwrite(Out.Data, 1, Out.Size) == Out.Size;
 
+finish:
+	ifree(Out.Data);
+	if (Data != TempImage->Data)
+		ifree(Data);
 	if (TempImage != iCurImage)
 		ilCloseImage(TempImage);
 
-	TIFFClose(File);
-
-	return IL_TRUE;
+	return Ret;
 }
 
 /*----------------------------------------------------------------------------*/
-- 
2.43.0


From 63c87c645f3ca8d114eb8c2288b50a81e42adda5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:20 +0000
Subject: [PATCH 012/115] fix: file and lump I/O: reads, writes and seeks past
 the bounds, a stale cache, positions that ignored the start, sizes and
 failures that were not reported

---
 DevIL/src-IL/include/il_files.h |   2 +
 DevIL/src-IL/src/il_files.cpp   | 242 +++++++++++++++++---------------
 DevIL/src-IL/src/il_io.cpp      | 185 ++++++++++++++++++------
 DevIL/src-IL/src/il_size.cpp    |  47 ++++---
 DevIL/src-IL/src/il_targa.cpp   |  46 ------
 5 files changed, 303 insertions(+), 219 deletions(-)

diff --git a/DevIL/src-IL/include/il_files.h b/DevIL/src-IL/include/il_files.h
index 20701f9..f301f11 100644
--- a/DevIL/src-IL/include/il_files.h
+++ b/DevIL/src-IL/include/il_files.h
@@ -60,6 +60,8 @@ __FILES_EXTERN ILuint			(ILAPIENTRY *itell)(void);
 __FILES_EXTERN void				iSetOutputFile(ILHANDLE File);
 __FILES_EXTERN void				iSetOutputLump(void *Lump, ILuint Size);
 __FILES_EXTERN void				iSetOutputFake(void);
+__FILES_EXTERN void				iWriteStart(void);
+__FILES_EXTERN ILboolean		iWriteOk(void);
 __FILES_EXTERN void				(ILAPIENTRY *iclosew)(ILHANDLE);
 __FILES_EXTERN ILHANDLE			(ILAPIENTRY *iopenw)(ILconst_string);
 __FILES_EXTERN ILint			(ILAPIENTRY *iputc)(ILubyte Char);
diff --git a/DevIL/src-IL/src/il_files.cpp b/DevIL/src-IL/src/il_files.cpp
index 54726c3..c5e4cc2 100644
--- a/DevIL/src-IL/src/il_files.cpp
+++ b/DevIL/src-IL/src/il_files.cpp
@@ -41,6 +41,7 @@ void 		*WriteLump = NULL;
 ILuint		ReadLumpPos = 0, ReadLumpSize = 0, ReadFileStart = 0, WriteFileStart = 0;
 ILuint		WriteLumpPos = 0, WriteLumpSize = 0;
 
+fEofProc	EofProcCopy;
 fGetcProc	GetcProcCopy;
 fReadProc	ReadProcCopy;
 fSeekRProc	SeekProcCopy;
@@ -57,7 +58,10 @@ void		(ILAPIENTRY *iclosewCopy)(ILHANDLE);
 
 ILboolean	UseCache = IL_FALSE;
 ILubyte		*Cache = NULL;
-ILuint		CacheSize, CachePos, CacheStartPos, CacheBytesRead;
+ILuint		CacheSize, CachePos, CacheStartPos, CacheReadSize;
+ILboolean	WriteFailed = IL_FALSE;
+
+static void iDropCache(void);
 
 // "Fake" size functions
 //  Definitions are in il_size.c.
@@ -71,6 +75,7 @@ ILint		ILAPIENTRY iSizeWrite(const void *Buffer, ILuint Size, ILuint Number);
 void ILAPIENTRY iPreserveReadFuncs()
 {
 	// Create backups
+	EofProcCopy = EofProc;
 	GetcProcCopy = GetcProc;
 	ReadProcCopy = ReadProc;
 	SeekProcCopy = SeekRProc;
@@ -88,6 +93,7 @@ void ILAPIENTRY iPreserveReadFuncs()
 // Restores the read functions - must be used after iPreserveReadFuncs().
 void ILAPIENTRY iRestoreReadFuncs()
 {
+	EofProc = EofProcCopy;
 	GetcProc = GetcProcCopy;
 	ReadProc = ReadProcCopy;
 	SeekRProc = SeekProcCopy;
@@ -310,6 +316,8 @@ void iSetInputFile(ILHANDLE File)
 	iseek = iSeekRFile;
 	itell = iTellRFile;
 	FileRead = File;
+	iDropCache();  // Whatever is cached belongs to another file.
+	ReadFileStart = 0;
 	ReadFileStart = itell();
 }
 
@@ -322,6 +330,7 @@ void iSetInputLump(const void *Lump, ILuint Size)
 	iread = iReadLump;
 	iseek = iSeekRLump;
 	itell = iTellRLump;
+	iDropCache();  // Whatever is cached belongs to another file.
 	ReadLump = Lump;
 	ReadLumpPos = 0;
 	ReadLumpSize = Size;
@@ -341,6 +350,9 @@ void iSetOutputFile(ILHANDLE File)
 	itellw = iTellWFile;
 	iwrite = iWriteFile;
 	FileWrite = File;
+	WriteFailed = IL_FALSE;
+	WriteFileStart = 0;
+	WriteFileStart = itellw();
 }
 
 
@@ -352,6 +364,7 @@ void iSetOutputFake(void)
 	iseekw = iSizeSeek;
 	itellw = iSizeTell;
 	iwrite = iSizeWrite;
+	WriteFailed = IL_FALSE;
 	return;
 }
 
@@ -371,6 +384,21 @@ void iSetOutputLump(void *Lump, ILuint Size)
 	WriteLump = Lump;
 	WriteLumpPos = 0;
 	WriteLumpSize = Size;
+	WriteFailed = IL_FALSE;
+}
+
+
+// Forgets about what happened while something else was saved.
+void iWriteStart(void)
+{
+	WriteFailed = IL_FALSE;
+}
+
+
+// Tells whether all that was written since the output was set has been accepted.
+ILboolean iWriteOk(void)
+{
+	return !WriteFailed;
 }
 
 
@@ -424,9 +452,7 @@ ILboolean ILAPIENTRY iEofFile(void)
 
 ILboolean ILAPIENTRY iEofLump(void)
 {
-	if (ReadLumpSize)
-		return (ReadLumpPos >= ReadLumpSize);
-	return IL_FALSE;
+	return (ReadLumpPos >= ReadLumpSize);
 }
 
 
@@ -436,23 +462,23 @@ ILint ILAPIENTRY iGetcFile(void)
 		return GetcProc(FileRead);
 	}
 	if (CachePos >= CacheSize) {
-		iPreCache(CacheSize);
+		if (!iPreCache(CacheReadSize))
+			return GetcProc(FileRead);
+		if (CacheSize == 0) {  // End of the file
+			ilSetError(IL_FILE_READ_ERROR);
+			return IL_EOF;
+		}
 	}
 
-	CacheBytesRead++;
 	return Cache[CachePos++];
 }
 
 
 ILint ILAPIENTRY iGetcLump(void)
 {
-	// If ReadLumpSize is 0, don't even check to see if we've gone past the bounds.
-	if (ReadLumpSize > 0) {
-		if (ReadLumpPos + 1 > ReadLumpSize) {
-			ReadLumpPos--;
-			ilSetError(IL_FILE_READ_ERROR);
-			return IL_EOF;
-		}
+	if (ReadLumpPos >= ReadLumpSize) {
+		ilSetError(IL_FILE_READ_ERROR);
+		return IL_EOF;
 	}
 
 	return *((ILubyte*)ReadLump + ReadLumpPos++);
@@ -465,7 +491,7 @@ ILuint ILAPIENTRY iReadFile(void *Buffer, ILuint Size, ILuint Number)
 	ILuint	BuffSize = Size * Number;
 	ILuint	NumRead;
 
-	if (!UseCache) {
+	if (!UseCache || Size == 0 || Number == 0) {
 		NumRead = ReadProc(Buffer, Size, Number, FileRead);
 		if (NumRead != Number)
 			ilSetError(IL_FILE_READ_ERROR);
@@ -476,35 +502,21 @@ ILuint ILAPIENTRY iReadFile(void *Buffer, ILuint Size, ILuint Number)
 		return ReadProc(Buffer, Size, Number, FileRead);
 	}*/
 
-	if (BuffSize < CacheSize - CachePos) {
-		memcpy(Buffer, Cache + CachePos, BuffSize);
-		CachePos += BuffSize;
-		CacheBytesRead += BuffSize;
-		if (Size != 0)
-			BuffSize /= Size;
-		return BuffSize;
-	}
-	else {
-		while (TotalBytes < BuffSize) {
-			// If loop through more than once, after first, CachePos is 0.
-			if (TotalBytes + CacheSize - CachePos > BuffSize)
-				BytesCopied = BuffSize - TotalBytes;
-			else
-				BytesCopied = CacheSize - CachePos;
-
-			memcpy((ILubyte*)Buffer + TotalBytes, Cache + CachePos, BytesCopied);
-			TotalBytes += BytesCopied;
-			CachePos += BytesCopied;
-			if (TotalBytes < BuffSize) {
-				iPreCache(CacheSize);
+	while (TotalBytes < BuffSize) {
+		if (CachePos >= CacheSize) {
+			if (!iPreCache(CacheReadSize)) {  // No cache, so read the rest directly.
+				TotalBytes += ReadProc((ILubyte*)Buffer + TotalBytes, 1, BuffSize - TotalBytes, FileRead);
+				break;
 			}
+			if (CacheSize == 0)  // End of the file
+				break;
 		}
+		BytesCopied = IL_MIN(BuffSize - TotalBytes, CacheSize - CachePos);
+		memcpy((ILubyte*)Buffer + TotalBytes, Cache + CachePos, BytesCopied);
+		TotalBytes += BytesCopied;
+		CachePos += BytesCopied;
 	}
 
-	// DW: Changed on 12-27-2008.  Was causing the position to go too far if the
-	//     cache was smaller than the buffer.
-	//CacheBytesRead += TotalBytes;
-	CacheBytesRead = CachePos;
 	if (Size != 0)
 		TotalBytes /= Size;
 	if (TotalBytes != Number)
@@ -515,21 +527,15 @@ ILuint ILAPIENTRY iReadFile(void *Buffer, ILuint Size, ILuint Number)
 
 ILuint ILAPIENTRY iReadLump(void *Buffer, const ILuint Size, const ILuint Number)
 {
-	ILuint i, ByteSize = IL_MIN( Size*Number, ReadLumpSize-ReadLumpPos);
+	ILuint i = 0;
+	ILuint64 ByteSize = (ILuint64)Size * Number;
 
-	for (i = 0; i < ByteSize; i++) {
-		*((ILubyte*)Buffer + i) = *((ILubyte*)ReadLump + ReadLumpPos + i);
-		if (ReadLumpSize > 0) {  // ReadLumpSize is too large to care about apparently
-			if (ReadLumpPos + i > ReadLumpSize) {
-				ReadLumpPos += i;
-				if (i != Number)
-					ilSetError(IL_FILE_READ_ERROR);
-				return i;
-			}
-		}
+	if (ReadLumpPos < ReadLumpSize) {
+		i = (ILuint)IL_MIN(ByteSize, (ILuint64)(ReadLumpSize - ReadLumpPos));
+		memcpy(Buffer, (const ILubyte*)ReadLump + ReadLumpPos, i);
+		ReadLumpPos += i;
 	}
 
-	ReadLumpPos += i;
 	if (Size != 0)
 		i /= Size;
 	if (i != Number)
@@ -546,9 +552,8 @@ ILboolean iPreCache(ILuint Size)
 		return IL_TRUE;
 	}
 
-	if (Cache) {
-		ifree(Cache);
-	}
+	// The logical position may lie inside of what is cached at the moment.
+	iUnCache();
 
 	if (Size == 0) {
 		Size = 1;
@@ -559,25 +564,36 @@ ILboolean iPreCache(ILuint Size)
 		return IL_FALSE;
 	}
 
-	UseCache = IL_FALSE;
 	CacheStartPos = itell();
-	CacheSize = iread(Cache, 1, Size);
-	if (CacheSize != Size)
-		ilGetError();  // Get rid of the IL_FILE_READ_ERROR.
-
-	//2003-09-09: uncommented the following line to prevent
-	//an infinite loop in ilPreCache()
-	CacheSize = Size;
+	CacheReadSize = Size;
+	// Less than Size is not an error: this can be all that the file still has.
+	CacheSize = ReadProc(Cache, 1, Size, FileRead);
+	if (CacheSize > Size)
+		CacheSize = 0;
 	CachePos = 0;
 	UseCache = IL_TRUE;
-	CacheBytesRead = 0;
 
 	return IL_TRUE;
 }
 
 
+// Forgets the cache without touching the file.
+static void iDropCache(void)
+{
+	CacheSize = 0;
+	CachePos = 0;
+	if (Cache) {
+		ifree(Cache);
+		Cache = NULL;
+	}
+	UseCache = IL_FALSE;
+}
+
+
 void iUnCache()
 {
+	ILuint Pos;
+
 	//changed 2003-09-01:
 	//make iUnCache smart enough to return if
 	//no cache is used
@@ -587,15 +603,9 @@ void iUnCache()
 	if (iread == iReadLump)
 		return;
 
-	CacheSize = 0;
-	CachePos = 0;
-	if (Cache) {
-		ifree(Cache);
-		Cache = NULL;
-	}
-	UseCache = IL_FALSE;
-
-	iseek(CacheStartPos + CacheBytesRead, IL_SEEK_SET);
+	Pos = CacheStartPos + CachePos;
+	iDropCache();
+	iseek(Pos, IL_SEEK_SET);
 
 	return;
 }
@@ -603,6 +613,7 @@ void iUnCache()
 
 ILint ILAPIENTRY iSeekRFile(ILint Offset, ILuint Mode)
 {
+	iUnCache();
 	if (Mode == IL_SEEK_SET)
 		Offset += ReadFileStart;  // This allows us to use IL_SEEK_SET in the middle of a file.
 	return SeekRProc(FileRead, Offset, Mode);
@@ -612,40 +623,41 @@ ILint ILAPIENTRY iSeekRFile(ILint Offset, ILuint Mode)
 // Returns 1 on error, 0 on success
 ILint ILAPIENTRY iSeekRLump(ILint Offset, ILuint Mode)
 {
+	ILint64 Pos;
+
+	// Just like in a file, a position after the end is allowed, but there is nothing to read there.
 	switch (Mode)
 	{
 		case IL_SEEK_SET:
-			if (Offset > (ILint)ReadLumpSize)
-				return 1;
-			ReadLumpPos = Offset;
+			Pos = Offset;
 			break;
 
 		case IL_SEEK_CUR:
-			if (ReadLumpPos + Offset > ReadLumpSize)
-				return 1;
-			ReadLumpPos += Offset;
+			Pos = (ILint64)ReadLumpPos + Offset;
 			break;
 
 		case IL_SEEK_END:
-			if (Offset > 0)
-				return 1;
-			// Should we use >= instead?
-			if (abs(Offset) > (ILint)ReadLumpSize)  // If ReadLumpSize == 0, too bad
-				return 1;
-			ReadLumpPos = ReadLumpSize + Offset;
+			Pos = (ILint64)ReadLumpSize + Offset;
 			break;
 
 		default:
 			return 1;
 	}
 
+	if (Pos < 0 || Pos > UINT_MAX)
+		return 1;
+	ReadLumpPos = (ILuint)Pos;
+
 	return 0;
 }
 
 
 ILuint ILAPIENTRY iTellRFile(void)
 {
-	return TellRProc(FileRead);
+	// Relative to the start, just as iSeekRFile counts.
+	if (UseCache)
+		return CacheStartPos + CachePos;
+	return TellRProc(FileRead) - ReadFileStart;
 }
 
 
@@ -671,14 +683,19 @@ const ILubyte* ILAPIENTRY iGetLump(void) {
 
 ILint ILAPIENTRY iPutcFile(ILubyte Char)
 {
-	return PutcProc(Char, FileWrite);
+	ILint Ret = PutcProc(Char, FileWrite);
+	if (Ret == IL_EOF)
+		WriteFailed = IL_TRUE;
+	return Ret;
 }
 
 
 ILint ILAPIENTRY iPutcLump(ILubyte Char)
 {
-	if (WriteLumpPos >= WriteLumpSize)
+	if (WriteLumpPos >= WriteLumpSize) {
+		WriteFailed = IL_TRUE;
 		return IL_EOF;  // IL_EOF
+	}
 	*((ILubyte*)(WriteLump) + WriteLumpPos++) = Char;
 	return Char;
 }
@@ -690,6 +707,7 @@ ILint ILAPIENTRY iWriteFile(const void *Buffer, ILuint Size, ILuint Number)
 	NumWritten = WriteProc(Buffer, Size, Number, FileWrite);
 	if (NumWritten != Number) {
 		ilSetError(IL_FILE_WRITE_ERROR);
+		WriteFailed = IL_TRUE;
 		return 0;
 	}
 	return NumWritten;
@@ -698,24 +716,21 @@ ILint ILAPIENTRY iWriteFile(const void *Buffer, ILuint Size, ILuint Number)
 
 ILint ILAPIENTRY iWriteLump(const void *Buffer, ILuint Size, ILuint Number)
 {
-	ILuint SizeBytes = Size * Number;
-	ILuint i = 0;
+	ILuint64 SizeBytes = (ILuint64)Size * Number;
+	ILuint Room = WriteLumpPos < WriteLumpSize ? WriteLumpSize - WriteLumpPos : 0;
 
-	for (; i < SizeBytes; i++) {
-		if (WriteLumpSize > 0) {
-			if (WriteLumpPos + i >= WriteLumpSize) {  // Should we use > instead?
-				ilSetError(IL_FILE_WRITE_ERROR);
-				WriteLumpPos += i;
-				return i;
-			}
-		}
-
-		*((ILubyte*)WriteLump + WriteLumpPos + i) = *((ILubyte*)Buffer + i);
+	if (SizeBytes > Room) {
+		memcpy((ILubyte*)WriteLump + WriteLumpPos, Buffer, Room);
+		WriteLumpPos += Room;
+		ilSetError(IL_FILE_WRITE_ERROR);
+		WriteFailed = IL_TRUE;
+		return Size != 0 ? Room / Size : 0;
 	}
 
-	WriteLumpPos += SizeBytes;
-	
-	return SizeBytes;
+	memcpy((ILubyte*)WriteLump + WriteLumpPos, Buffer, (size_t)SizeBytes);
+	WriteLumpPos += (ILuint)SizeBytes;
+
+	return Number;
 }
 
 
@@ -730,40 +745,37 @@ ILint ILAPIENTRY iSeekWFile(ILint Offset, ILuint Mode)
 // Returns 1 on error, 0 on success
 ILint ILAPIENTRY iSeekWLump(ILint Offset, ILuint Mode)
 {
+	ILint64 Pos;
+
 	switch (Mode)
 	{
 		case IL_SEEK_SET:
-			if (Offset > (ILint)WriteLumpSize)
-				return 1;
-			WriteLumpPos = Offset;
+			Pos = Offset;
 			break;
 
 		case IL_SEEK_CUR:
-			if (WriteLumpPos + Offset > WriteLumpSize)
-				return 1;
-			WriteLumpPos += Offset;
+			Pos = (ILint64)WriteLumpPos + Offset;
 			break;
 
 		case IL_SEEK_END:
-			if (Offset > 0)
-				return 1;
-			// Should we use >= instead?
-			if (abs(Offset) > (ILint)WriteLumpSize)  // If WriteLumpSize == 0, too bad
-				return 1;
-			WriteLumpPos = WriteLumpSize + Offset;
+			Pos = (ILint64)WriteLumpSize + Offset;
 			break;
 
 		default:
 			return 1;
 	}
 
+	if (Pos < 0 || Pos > WriteLumpSize)
+		return 1;
+	WriteLumpPos = (ILuint)Pos;
+
 	return 0;
 }
 
 
 ILuint ILAPIENTRY iTellWFile(void)
 {
-	return TellWProc(FileWrite);
+	return TellWProc(FileWrite) - WriteFileStart;
 }
 
 
diff --git a/DevIL/src-IL/src/il_io.cpp b/DevIL/src-IL/src/il_io.cpp
index 01f324d..afbb685 100644
--- a/DevIL/src-IL/src/il_io.cpp
+++ b/DevIL/src-IL/src/il_io.cpp
@@ -2255,6 +2255,20 @@ finish:
 	\return Boolean value of failure or success.  Returns IL_FALSE if saving failed.*/
 ILboolean ILAPIENTRY ilSave(ILenum Type, ILconst_string FileName)
 {
+	ILboolean bRet = IL_FALSE;
+
+	if (FileName == NULL || ilStrLen(FileName) < 1) {
+		ilSetError(IL_INVALID_PARAM);
+		return IL_FALSE;
+	}
+
+	if (iCurImage == NULL) {
+		ilSetError(IL_ILLEGAL_OPERATION);
+		return IL_FALSE;
+	}
+
+	iWriteStart();
+
 	switch (Type)
 	{
 		case IL_TYPE_UNKNOWN:
@@ -2262,100 +2276,127 @@ ILboolean ILAPIENTRY ilSave(ILenum Type, ILconst_string FileName)
 
 		#ifndef IL_NO_BMP
 		case IL_BMP:
-			return ilSaveBmp(FileName);
+			bRet = ilSaveBmp(FileName);
+			break;
 		#endif
 
 		#ifndef IL_NO_CHEAD
 		case IL_CHEAD:
-			return ilSaveCHeader(FileName, (char*)"IL_IMAGE");
+			bRet = ilSaveCHeader(FileName, (char*)"IL_IMAGE");
+			break;
 		#endif
 
 		#ifndef IL_NO_DDS
 		case IL_DDS:
-    		return ilSaveDds(FileName);
+    		bRet = ilSaveDds(FileName);
+    		break;
 		#endif
 
 		#ifndef IL_NO_EXR
 		case IL_EXR:
-    		return ilSaveExr(FileName);
+    		bRet = ilSaveExr(FileName);
+    		break;
 		#endif
 
 		#ifndef IL_NO_HDR
 		case IL_HDR:
-			return ilSaveHdr(FileName);
+			bRet = ilSaveHdr(FileName);
+			break;
 		#endif
 
 		#ifndef IL_NO_JP2
 		case IL_JP2:
-			return ilSaveJp2(FileName);
+			bRet = ilSaveJp2(FileName);
+			break;
 		#endif
 
 		#ifndef IL_NO_JPG
 		case IL_JPG:
-			return ilSaveJpeg(FileName);
+			bRet = ilSaveJpeg(FileName);
+			break;
 		#endif
 
 		/*#ifndef IL_NO_KTX
 		case IL_KTX:
-			return ilSaveKtx(FileName);
+			bRet = ilSaveKtx(FileName);
+			break;
 		#endif*/
 
 		#ifndef IL_NO_PCX
 		case IL_PCX:
-			return ilSavePcx(FileName);
+			bRet = ilSavePcx(FileName);
+			break;
 		#endif
 
 		#ifndef IL_NO_PNG
 		case IL_PNG:
-			return ilSavePng(FileName);
+			bRet = ilSavePng(FileName);
+			break;
 		#endif
 
 		#ifndef IL_NO_PNM
 		case IL_PNM:
-			return ilSavePnm(FileName);
+			bRet = ilSavePnm(FileName);
+			break;
 		#endif
 
 		#ifndef IL_NO_PSD
 		case IL_PSD:
-			return ilSavePsd(FileName);
+			bRet = ilSavePsd(FileName);
+			break;
 		#endif
 
 		#ifndef IL_NO_RAW
 		case IL_RAW:
-			return ilSaveRaw(FileName);
+			bRet = ilSaveRaw(FileName);
+			break;
 		#endif
 
 		#ifndef IL_NO_SGI
 		case IL_SGI:
-			return ilSaveSgi(FileName);
+			bRet = ilSaveSgi(FileName);
+			break;
 		#endif
 
 		#ifndef IL_NO_TGA
 		case IL_TGA:
-			return ilSaveTarga(FileName);
+			bRet = ilSaveTarga(FileName);
+			break;
 		#endif
 
 		#ifndef IL_NO_TIF
 		case IL_TIF:
-			return ilSaveTiff(FileName);
+			bRet = ilSaveTiff(FileName);
+			break;
 		#endif
 
 		#ifndef IL_NO_VTF
 		case IL_VTF:
-			return ilSaveVtf(FileName);
+			bRet = ilSaveVtf(FileName);
+			break;
 		#endif
 
 		#ifndef IL_NO_WBMP
 		case IL_WBMP:
-			return ilSaveWbmp(FileName);
+			bRet = ilSaveWbmp(FileName);
+			break;
 		#endif
 
 		case IL_JASC_PAL:
-			return ilSaveJascPal(FileName);
+			bRet = ilSaveJascPal(FileName);
+			break;
+
+		default:
+			ilSetError(IL_INVALID_ENUM);
+			return IL_FALSE;
 	}
 
-	ilSetError(IL_INVALID_ENUM);
-	return IL_FALSE;
+	if (bRet && !iWriteOk()) {  // Something is missing in the file.
+		ilSetError(IL_FILE_WRITE_ERROR);
+		return IL_FALSE;
+	}
+
+	return bRet;
 }
 
 
@@ -2367,13 +2408,20 @@ ILboolean ILAPIENTRY ilSave(ILenum Type, ILconst_string FileName)
 	\return Boolean value of failure or success.  Returns IL_FALSE if saving failed.*/
 ILuint ILAPIENTRY ilSaveF(ILenum Type, ILHANDLE File)
 {
-	ILboolean Ret;
+	ILuint Ret;
 
 	if (File == NULL) {
 		ilSetError(IL_INVALID_PARAM);
 		return 0;
 	}
 
+	if (iCurImage == NULL) {
+		ilSetError(IL_ILLEGAL_OPERATION);
+		return 0;
+	}
+
+	iWriteStart();
+
 	switch (Type)
 	{
 		#ifndef IL_NO_BMP
@@ -2414,6 +2462,12 @@ ILuint ILAPIENTRY ilSaveF(ILenum Type, ILHANDLE File)
 			#endif
 		#endif
 
+		#ifndef IL_NO_PCX
+		case IL_PCX:
+			Ret = ilSavePcxF(File);
+			break;
+		#endif
+
 		#ifndef IL_NO_PNM
 		case IL_PNM:
 			Ret = ilSavePnmF(File);
@@ -2473,10 +2527,15 @@ ILuint ILAPIENTRY ilSaveF(ILenum Type, ILHANDLE File)
 			return 0;
 	}
 
-	if (Ret == IL_FALSE)
+	if (Ret == 0)
+		return 0;
+
+	if (!iWriteOk()) {  // Something is missing in the file.
+		ilSetError(IL_FILE_WRITE_ERROR);
 		return 0;
+	}
 
-	return itellw();
+	return Ret;
 }
 
 
@@ -2489,6 +2548,15 @@ ILuint ILAPIENTRY ilSaveF(ILenum Type, ILHANDLE File)
 	\return Boolean value of failure or success.  Returns IL_FALSE if saving failed.*/
 ILuint ILAPIENTRY ilSaveL(ILenum Type, void *Lump, ILuint Size)
 {
+	ILuint Ret;
+
+	if (iCurImage == NULL) {
+		ilSetError(IL_ILLEGAL_OPERATION);
+		return 0;
+	}
+
+	iWriteStart();
+
 	if (Lump == NULL) {
 		if (Size != 0) {
 			ilSetError(IL_INVALID_PARAM);
@@ -2504,82 +2572,111 @@ ILuint ILAPIENTRY ilSaveL(ILenum Type, void *Lump, ILuint Size)
 	{
 		#ifndef IL_NO_BMP
 		case IL_BMP:
-			return ilSaveBmpL(Lump, Size);
+			Ret = ilSaveBmpL(Lump, Size);
+			break;
 		#endif
 
 		#ifndef IL_NO_EXR
 		case IL_EXR:
-			return ilSaveExrL(Lump, Size);
+			Ret = ilSaveExrL(Lump, Size);
+			break;
 		#endif
 
 		#ifndef IL_NO_HDR
 		case IL_HDR:
-			return ilSaveHdrL(Lump, Size);
+			Ret = ilSaveHdrL(Lump, Size);
+			break;
 		#endif
 
 		#ifndef IL_NO_JP2
 		case IL_JP2:
-			return ilSaveJp2L(Lump, Size);
+			Ret = ilSaveJp2L(Lump, Size);
+			break;
 		#endif
 
 		#ifndef IL_NO_JPG
 		case IL_JPG:
-			return ilSaveJpegL(Lump, Size);
+			Ret = ilSaveJpegL(Lump, Size);
+			break;
+		#endif
+
+		#ifndef IL_NO_PCX
+		case IL_PCX:
+			Ret = ilSavePcxL(Lump, Size);
+			break;
 		#endif
 
 		#ifndef IL_NO_PNG
 		case IL_PNG:
-			return ilSavePngL(Lump, Size);
+			Ret = ilSavePngL(Lump, Size);
+			break;
 		#endif
 
 		#ifndef IL_NO_PNM
 		case IL_PNM:
-			return ilSavePnmL(Lump, Size);
+			Ret = ilSavePnmL(Lump, Size);
+			break;
 		#endif
 
 		#ifndef IL_NO_PSD
 		case IL_PSD:
-			return ilSavePsdL(Lump, Size);
+			Ret = ilSavePsdL(Lump, Size);
+			break;
 		#endif
 
 		#ifndef IL_NO_RAW
 		case IL_RAW:
-			return ilSaveRawL(Lump, Size);
+			Ret = ilSaveRawL(Lump, Size);
+			break;
 		#endif
 
 		#ifndef IL_NO_SGI
 		case IL_SGI:
-			return ilSaveSgiL(Lump, Size);
+			Ret = ilSaveSgiL(Lump, Size);
+			break;
 		#endif
 
 		#ifndef IL_NO_TGA
 		case IL_TGA:
-			return ilSaveTargaL(Lump, Size);
+			Ret = ilSaveTargaL(Lump, Size);
+			break;
 		#endif
 
 		#ifndef IL_NO_DDS
 		case IL_DDS:
-			return ilSaveDdsL(Lump, Size);
+			Ret = ilSaveDdsL(Lump, Size);
+			break;
 		#endif
 
 		#ifndef IL_NO_VTF
 		case IL_VTF:
-			return ilSaveVtfL(Lump, Size);
+			Ret = ilSaveVtfL(Lump, Size);
+			break;
 		#endif
 
 		#ifndef IL_NO_WBMP
 		case IL_WBMP:
-			return ilSaveWbmpL(Lump, Size);
+			Ret = ilSaveWbmpL(Lump, Size);
+			break;
 		#endif
 
 		#ifndef IL_NO_TIF
 		case IL_TIF:
-			return ilSaveTiffL(Lump, Size);
+			Ret = ilSaveTiffL(Lump, Size);
+			break;
 		#endif
+
+		default:
+			ilSetError(IL_INVALID_ENUM);
+			return 0;
 	}
 
-	ilSetError(IL_INVALID_ENUM);
-	return 0;
+	if (Ret != 0 && !iWriteOk()) {  // The buffer is too small.
+		ilSetError(IL_FILE_WRITE_ERROR);
+		return 0;
+	}
+
+	return Ret;
 }
 
 
@@ -2602,6 +2699,8 @@ ILboolean ILAPIENTRY ilSaveImage(ILconst_string FileName)
 		return IL_FALSE;
 	}
 
+	iWriteStart();
+
 	Ext = iGetExtension(FileName);
 	if (Ext == NULL) {
 		ilSetError(IL_INVALID_PARAM);
@@ -2757,5 +2856,9 @@ ILboolean ILAPIENTRY ilSaveImage(ILconst_string FileName)
 	return IL_FALSE;
 
 finish:
+	if (bRet && !iWriteOk()) {  // Something is missing in the file.
+		ilSetError(IL_FILE_WRITE_ERROR);
+		bRet = IL_FALSE;
+	}
 	return bRet;
 }
diff --git a/DevIL/src-IL/src/il_size.cpp b/DevIL/src-IL/src/il_size.cpp
index 3cc8857..792f37c 100755
--- a/DevIL/src-IL/src/il_size.cpp
+++ b/DevIL/src-IL/src/il_size.cpp
@@ -13,7 +13,6 @@
 #include "il_internal.h"
 
 
-ILuint iTargaSize(void);
 
 
 ILuint CurPos;  // Fake "file" pointer.
@@ -79,6 +78,13 @@ ILint ILAPIENTRY iSizeWrite(const void *Buffer, ILuint Size, ILuint Number)
 //  A return value of 0 is an error.
 ILuint ilDetermineSize(ILenum Type)
 {
+	ILuint Ret = 0;
+
+	if (iCurImage == NULL) {
+		ilSetError(IL_ILLEGAL_OPERATION);
+		return 0;
+	}
+
 	MaxPos = CurPos = 0;
 	iSetOutputFake();  // Sets iputc, iwrite, etc. to functions above.
 
@@ -86,92 +92,97 @@ ILuint ilDetermineSize(ILenum Type)
 	{
 		#ifndef IL_NO_BMP
 		case IL_BMP:
-			ilSaveBmpL(NULL, 0);
+			Ret = ilSaveBmpL(NULL, 0);
 			break;
 		#endif//IL_NO_BMP
 
 		#ifndef IL_NO_DDS
 		case IL_DDS:
-			ilSaveDdsL(NULL, 0);
+			Ret = ilSaveDdsL(NULL, 0);
 			break;
 		#endif//IL_NO_DDS
 
 		#ifndef IL_NO_EXR
 		case IL_EXR:
-			ilSaveExrL(NULL, 0);
+			Ret = ilSaveExrL(NULL, 0);
 			break;
 		#endif//IL_NO_EXR
 
 		#ifndef IL_NO_HDR
 		case IL_HDR:
-			ilSaveHdrL(NULL, 0);
+			Ret = ilSaveHdrL(NULL, 0);
 			break;
 		#endif//IL_NO_HDR
 
 		#ifndef IL_NO_JP2
 		case IL_JP2:
-			ilSaveJp2L(NULL, 0);
+			Ret = ilSaveJp2L(NULL, 0);
 			break;
 		#endif//IL_NO_JP2
 
 		#ifndef IL_NO_JPG
 		case IL_JPG:
-			ilSaveJpegL(NULL, 0);
+			Ret = ilSaveJpegL(NULL, 0);
 			break;
 		#endif//IL_NO_JPG
 
 		#ifndef IL_NO_PCX
 		case IL_PCX:
-			ilSavePcxL(NULL, 0);
+			Ret = ilSavePcxL(NULL, 0);
 			break;
 		#endif//IL_NO_PCX
 
 		#ifndef IL_NO_PNG
 		case IL_PNG:
-			ilSavePngL(NULL, 0);
+			Ret = ilSavePngL(NULL, 0);
 			break;
 		#endif//IL_NO_PNG
 
 		#ifndef IL_NO_PNM
 		case IL_PNM:
-			ilSavePnmL(NULL, 0);
+			Ret = ilSavePnmL(NULL, 0);
 			break;
 		#endif//IL_NO_PNM
 
 		#ifndef IL_NO_PSD
 		case IL_PSD:
-			ilSavePsdL(NULL, 0);
+			Ret = ilSavePsdL(NULL, 0);
 			break;
 		#endif//IL_NO_PSD
 
 		#ifndef IL_NO_RAW
 		case IL_RAW:
-			ilSaveRawL(NULL, 0);
+			Ret = ilSaveRawL(NULL, 0);
 			break;
 		#endif//IL_NO_RAW
 
 		#ifndef IL_NO_SGI
 		case IL_SGI:
-			ilSaveSgiL(NULL, 0);
+			Ret = ilSaveSgiL(NULL, 0);
 			break;
 		#endif//IL_NO_SGI
 
 		#ifndef IL_NO_TGA
 		case IL_TGA:
-			//ilSaveTargaL(NULL, 0);
-			return iTargaSize();
+			Ret = ilSaveTargaL(NULL, 0);
 			break;
 		#endif//IL_NO_TGA
 
 		#ifndef IL_NO_TIF
 		case IL_TIF:
-			ilSaveTiffL(NULL, 0);
+			Ret = ilSaveTiffL(NULL, 0);
 			break;
 		#endif//IL_NO_TIF
 
+		#ifndef IL_NO_VTF
+		case IL_VTF:
+			Ret = ilSaveVtfL(NULL, 0);
+			break;
+		#endif//IL_NO_VTF
+
 		#ifndef IL_NO_WBMP
 		case IL_WBMP:
-			ilSaveWbmpL(NULL, 0);
+			Ret = ilSaveWbmpL(NULL, 0);
 			break;
 		#endif//IL_NO_WBMP
 
@@ -181,5 +192,7 @@ ILuint ilDetermineSize(ILenum Type)
 			return 0;
 	}
 
+	if (Ret == 0)  // The image cannot be saved in this format.
+		return 0;
 	return MaxPos;
 }
diff --git a/DevIL/src-IL/src/il_targa.cpp b/DevIL/src-IL/src/il_targa.cpp
index 1ceebf3..37ec030 100644
--- a/DevIL/src-IL/src/il_targa.cpp
+++ b/DevIL/src-IL/src/il_targa.cpp
@@ -854,52 +854,6 @@ ILboolean iSaveTargaInternal()
 }
 
 
-// Only to be called by ilDetermineSize.  Returns the buffer size needed to save the
-//  current image as a Targa file.
-ILuint iTargaSize(void)
-{
-	ILuint	Size, Bpp;
-	ILubyte	IDLen = 0;
-	const char	*ID = iGetString(IL_TGA_ID_STRING);
-	const char	*AuthName = iGetString(IL_TGA_AUTHNAME_STRING);
-	const char	*AuthComment = iGetString(IL_TGA_AUTHCOMMENT_STRING);
-
-	//@TODO: Support color indexed images.
-	if (iGetInt(IL_TGA_RLE) == IL_TRUE || iCurImage->Format == IL_COLOUR_INDEX) {
-		// Use the slower method, since we are using compression.  We do a "fake" write.
-		ilSaveTargaL(NULL, 0);
-	}
-
-	if (ID)
-		IDLen = (ILubyte)ilCharStrLen(ID);
-
-	Size = 18 + IDLen;  // Header + ID
-
-	// Bpp may not be iCurImage->Bpp.
-	switch (iCurImage->Format)
-	{
-		case IL_BGR:
-		case IL_RGB:
-			Bpp = 3;
-			break;
-		case IL_BGRA:
-		case IL_RGBA:
-			Bpp = 4;
-			break;
-		case IL_LUMINANCE:
-			Bpp = 1;
-			break;
-		default:  //@TODO: Do not know what to do with the others yet.
-			return 0;
-	}
-
-	Size += iCurImage->Width * iCurImage->Height * Bpp;
-	Size += 532;  // Size of the extension area
-
-	return Size;
-}
-
-
 /*// Makes a neat string to go into the id field of the .tga
 void iMakeString(char *Str)
 {
-- 
2.43.0


From 52136477e8a87a4efa2ece23c3f3e4d247574680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:05 +0000
Subject: [PATCH 013/115] fix: PNM: header words, comments, 16 bit samples, PBM
 polarity and the format chosen by the file name were handled wrongly

---
 DevIL/src-IL/include/il_pnm.h |   1 -
 DevIL/src-IL/src/il_pnm.cpp   | 360 ++++++++++++++--------------------
 2 files changed, 142 insertions(+), 219 deletions(-)

diff --git a/DevIL/src-IL/include/il_pnm.h b/DevIL/src-IL/include/il_pnm.h
index 4ac1d0f..0dfee26 100644
--- a/DevIL/src-IL/include/il_pnm.h
+++ b/DevIL/src-IL/include/il_pnm.h
@@ -50,7 +50,6 @@ ILimage		*ilReadBinaryPpm(PPMINFO *Info);
 ILimage		*ilReadBitPbm(PPMINFO *Info);
 ILboolean	ilReadPam(void);
 ILboolean	iGetWord(ILboolean);
-void		PbmMaximize(ILimage *Image);
 ILint		DecodeTupleType(string &TupleStr);
 
 
diff --git a/DevIL/src-IL/src/il_pnm.cpp b/DevIL/src-IL/src/il_pnm.cpp
index dc87cc9..5356d73 100644
--- a/DevIL/src-IL/src/il_pnm.cpp
+++ b/DevIL/src-IL/src/il_pnm.cpp
@@ -28,12 +28,8 @@ using namespace std;
 #define MAX_BUFFER 180  
 
 //@TODO: Get rid of these globals
-static ILbyte LineBuffer[MAX_BUFFER];
 static ILbyte SmallBuff[MAX_BUFFER];
 
-// Can't read direct bits from a lump yet
-ILboolean IsLump = IL_FALSE;
-
 
 //! Checks if the file specified in FileName is a valid .pnm file.
 ILboolean ilIsValidPnm(ILconst_string FileName)
@@ -200,10 +196,6 @@ ILboolean iLoadPnmInternal()
 			break;
 		case '4':
 			Info.Type = IL_PBM_BINARY;
-			if (IsLump) {
-				ilSetError(IL_FORMAT_NOT_SUPPORTED);
-				return IL_FALSE;
-			}
 			break;
 		case '5':
 			Info.Type = IL_PGM_BINARY;
@@ -223,7 +215,7 @@ ILboolean iLoadPnmInternal()
 	if (iGetWord(IL_FALSE) == IL_FALSE)
 		return IL_FALSE;
 	Info.Width = atoi((const char*)SmallBuff);
-	if (Info.Width == 0) {
+	if ((ILint)Info.Width <= 0) {
 		ilSetError(IL_INVALID_FILE_HEADER);
 		return IL_FALSE;
 	}
@@ -231,7 +223,7 @@ ILboolean iLoadPnmInternal()
 	if (iGetWord(IL_FALSE) == IL_FALSE)
 		return IL_FALSE;
 	Info.Height = atoi((const char*)SmallBuff);
-	if (Info.Height == 0) {
+	if ((ILint)Info.Height <= 0) {
 		ilSetError(IL_INVALID_FILE_HEADER);
 		return IL_FALSE;
 	}
@@ -241,7 +233,8 @@ ILboolean iLoadPnmInternal()
 	{
 		if (iGetWord(IL_TRUE) == IL_FALSE)
 			return IL_FALSE;
-		if ((Info.MaxColour = atoi((const char*)SmallBuff)) == 0)
+		Info.MaxColour = atoi((const char*)SmallBuff);
+		if (Info.MaxColour == 0 || Info.MaxColour > USHRT_MAX)
 		{
 			ilSetError(IL_INVALID_FILE_HEADER);
 			return IL_FALSE;
@@ -255,14 +248,7 @@ ILboolean iLoadPnmInternal()
 	if (Info.Type == IL_PBM_ASCII || Info.Type == IL_PBM_BINARY ||
 		Info.Type == IL_PGM_ASCII || Info.Type == IL_PGM_BINARY)
 	{
-		if (Info.Type == IL_PGM_ASCII)
-		{
-			Info.Bpp = Info.MaxColour < 256 ? 1 : 2;
-		}
-		else
-		{
-			Info.Bpp = 1;
-		}
+		Info.Bpp = 1;
 	}
 	else
 	{
@@ -290,98 +276,85 @@ ILboolean iLoadPnmInternal()
 	}
 
 	if (PmImage == NULL)
-	{
-	    iCurImage->Format = ilGetFormatBpp(iCurImage->Bpp);
-	    ilSetError(IL_FILE_READ_ERROR);
 	    return IL_FALSE;
-	}
-
-	// Is this conversion needed?  Just 0's and 1's shows up as all black
-	if (Info.Type == IL_PBM_ASCII)
-	{
-		PbmMaximize(PmImage);
-	}
 
-	if (Info.MaxColour > 255)
-		PmImage->Type = IL_UNSIGNED_SHORT;
-	PmImage->Origin = IL_ORIGIN_UPPER_LEFT;
-	if (Info.Type == IL_PBM_ASCII || Info.Type == IL_PBM_BINARY ||
-		Info.Type == IL_PGM_ASCII || Info.Type == IL_PGM_BINARY)
-		PmImage->Format = IL_LUMINANCE;
-	else
-		PmImage->Format = IL_RGB;
-	PmImage->Origin = IL_ORIGIN_UPPER_LEFT;
-
-	if (PmImage == NULL)
-		return IL_FALSE;
 	return ilFixImage();
 }
 
 
-
-ILimage *ilReadAsciiPpm(PPMINFO *Info)
+// Makes the current image fit what the header says.
+static ILboolean iNewPnm(PPMINFO *Info)
 {
-	ILint	LineInc = 0, SmallInc = 0, DataInc = 0, Size;
-//	ILint	BytesRead = 0;
+	if (!ilTexImage(Info->Width, Info->Height, 1, Info->Bpp, Info->Bpp == 1 ? IL_LUMINANCE : IL_RGB,
+		Info->MaxColour > UCHAR_MAX ? IL_UNSIGNED_SHORT : IL_UNSIGNED_BYTE, NULL))
+		return IL_FALSE;
+	iCurImage->Origin = IL_ORIGIN_UPPER_LEFT;
+
+	return IL_TRUE;
+}
 
-	if (Info->MaxColour > 255)
-		Info->Bpp *= 2;
 
-	Size = Info->Width * Info->Height * Info->Bpp;
+// Samples of two bytes are big endian in the file.
+static ILboolean iReadPnmData(void)
+{
+	ILuint i;
 
-	if (!ilTexImage(Info->Width, Info->Height, 1, (ILubyte)(Info->Bpp), 0, IL_UNSIGNED_BYTE, NULL)) {
+	if (iread(iCurImage->Data, 1, iCurImage->SizeOfData) != iCurImage->SizeOfData) {
+		ilSetError(IL_FILE_READ_ERROR);
 		return IL_FALSE;
 	}
-	iCurImage->Origin = IL_ORIGIN_UPPER_LEFT;
-	if (Info->MaxColour > 255)
-		iCurImage->Type = IL_UNSIGNED_SHORT;
+	if (iCurImage->Bpc == 2) {
+		for (i = 0; i < iCurImage->SizeOfData / 2; i++)
+			BigUShort((ILushort*)iCurImage->Data + i);
+	}
 
-	while (DataInc < Size) {  // && !feof(File)) {
-		LineInc = 0;
+	return IL_TRUE;
+}
 
-		if (iFgets((char *)LineBuffer, MAX_BUFFER) == NULL) {
-			//ilSetError(IL_ILLEGAL_FILE_VALUE);
-			//return NULL;
-			//return iCurImage;
-			break;
-		}
-		if (LineBuffer[0] == '#') {  // Comment
-			continue;
-		}
 
-		while ((LineBuffer[LineInc] != NUL) && (LineBuffer[LineInc] != '\n')) {
+ILimage *ilReadAsciiPpm(PPMINFO *Info)
+{
+	ILuint	i, Size, Val;
+	ILint	Char = ' ';
 
-			SmallInc = 0;
-			while (!isalnum(LineBuffer[LineInc])) {  // Skip any whitespace
-				LineInc++;
-			}
-			while (isalnum(LineBuffer[LineInc])) {
-				SmallBuff[SmallInc] = LineBuffer[LineInc];
-				SmallInc++;
-				LineInc++;
-			}
-			SmallBuff[SmallInc] = NUL;
-			iCurImage->Data[DataInc] = atoi((const char*)SmallBuff);  // Convert from string to colour
+	if (!iNewPnm(Info))
+		return NULL;
 
-			// PSP likes to put whitespace at the end of lines...figures. =/
-			while (!isalnum(LineBuffer[LineInc]) && LineBuffer[LineInc] != NUL) {  // Skip any whitespace
-				LineInc++;
+	Size = iCurImage->SizeOfData / iCurImage->Bpc;
+	for (i = 0; i < Size; i++) {
+		while (Char != IL_EOF && !isdigit(Char)) {  // Skip any whitespace
+			if (Char == '#') {  // Comment
+				while (Char != IL_EOF && Char != '\n')
+					Char = igetc();
+			}
+			else {
+				Char = igetc();
 			}
+		}
+		if (Char == IL_EOF) {  // We read less than what we should have.
+			ilSetError(IL_FILE_READ_ERROR);
+			return NULL;
+		}
 
-			// We should set some kind of state flag that enables this
-			//Image->Data[DataInc] *= (ILubyte)(255 / Info->MaxColour);  // Scales to 0-255		
-			if (Info->MaxColour > 255)
-				DataInc++;
-			DataInc++;
+		if (Info->Type == IL_PBM_ASCII) {  // The bits need no whitespace between them, and 1 is black.
+			iCurImage->Data[i] = Char == '0' ? 255 : 0;
+			Char = ' ';
+			continue;
 		}
-	}
 
-	// If we read less than what we should have...
-	if (DataInc < Size) {
-		//ilCloseImage(iCurImage);
-		//ilSetCurImage(NULL);
-		ilSetError(IL_ILLEGAL_FILE_VALUE);
-		return NULL;
+		Val = 0;
+		while (Char != IL_EOF && isdigit(Char)) {
+			if (Val <= USHRT_MAX)
+				Val = Val * 10 + (Char - '0');
+			Char = i + 1 < Size ? igetc() : ieof() ? IL_EOF : igetc();
+		}
+		Val = IL_MIN(Val, Info->MaxColour);
+		if (iCurImage->Bpc == 2)
+			((ILushort*)iCurImage->Data)[i] = (ILushort)Val;
+		else
+			iCurImage->Data[i] = (ILubyte)Val;
+		// We should set some kind of state flag that enables this
+		//Image->Data[DataInc] *= (ILubyte)(255 / Info->MaxColour);  // Scales to 0-255
 	}
 
 	return iCurImage;
@@ -390,14 +363,8 @@ ILimage *ilReadAsciiPpm(PPMINFO *Info)
 
 ILimage *ilReadBinaryPpm(PPMINFO *Info)
 {
-	ILuint Size;
-
-	Size = Info->Width * Info->Height * Info->Bpp;
-
-	if (!ilTexImage(Info->Width, Info->Height, 1, (ILubyte)(Info->Bpp), 0, IL_UNSIGNED_BYTE, NULL)) {
-		return IL_FALSE;
-	}
-	iCurImage->Origin = IL_ORIGIN_UPPER_LEFT;
+	if (!iNewPnm(Info))
+		return NULL;
 
 	/* 4/3/2007 Dario Meloni
 	 Here it seems we have eaten too much bytes and it is needed to fix 
@@ -409,28 +376,27 @@ ILimage *ilReadBinaryPpm(PPMINFO *Info)
 	ILuint size = itell();
 	iseek(size-Size,IL_SEEK_SET);
 	*/
-	if (iread(iCurImage->Data, 1, Size) != Size) {
-		ilCloseImage(iCurImage);	
+	if (!iReadPnmData())
 		return NULL;
-	}
 	return iCurImage;
 }
 
 
 ILimage *ilReadBitPbm(PPMINFO *Info)
 {
-	ILuint	m, j, x, CurrByte;
+	ILuint	m, j, x;
+	ILint	CurrByte;
 
-	if (!ilTexImage(Info->Width, Info->Height, 1, (ILubyte)(Info->Bpp), 0, IL_UNSIGNED_BYTE, NULL)) {
-		return IL_FALSE;
-	}
-	iCurImage->Origin = IL_ORIGIN_UPPER_LEFT;
+	if (!iNewPnm(Info))
+		return NULL;
 
 	x = 0;
 	for (j = 0; j < iCurImage->SizeOfData;) {
 		CurrByte = igetc();
+		if (CurrByte == IL_EOF)
+			return NULL;
 		for (m = 128; m > 0 && x < Info->Width; m >>= 1, ++x, ++j) {
-			iCurImage->Data[j] = (CurrByte & m)?255:0;
+			iCurImage->Data[j] = (CurrByte & m)?0:255;  // 1 is black.
 		}
 		if (x == Info->Width)
 			x = 0;
@@ -444,7 +410,6 @@ ILboolean ilReadPam()
 {
 	PPMINFO Info;
 	string TempStr;
-	ILuint Size;
 
 	memset(&Info, 0, sizeof(PPMINFO));
 
@@ -473,7 +438,7 @@ ILboolean ilReadPam()
 	}
 
 	//@TODO: Handle other max colors and tuple types
-	if (Info.Width == 0 || Info.Height == 0 || Info.Depth == 0 || Info.Depth > 4 || Info.TuplType == 0)
+	if ((ILint)Info.Width <= 0 || (ILint)Info.Height <= 0 || Info.Depth == 0 || Info.Depth > 4 || Info.TuplType == 0)
 	{
 		ilSetError(IL_INVALID_FILE_HEADER);
 		return IL_FALSE;
@@ -482,11 +447,9 @@ ILboolean ilReadPam()
 	{
 		case 255:
 			Info.Type = IL_UNSIGNED_BYTE;
-			Size = 1;
 			break;
 		case 65535:
 			Info.Type = IL_UNSIGNED_SHORT;
-			Size = 2;
 			break;
 		default:
 			ilSetError(IL_INVALID_FILE_HEADER);
@@ -501,10 +464,8 @@ ILboolean ilReadPam()
 				ilSetError(IL_INVALID_FILE_HEADER);
 				return IL_FALSE;
 			}
-			if (!ilTexImage(Info.Width, Info.Height, 1, Info.Depth, 0, Info.Type, NULL))
+			if (!ilTexImage(Info.Width, Info.Height, 1, Info.Depth, IL_LUMINANCE, Info.Type, NULL))
 				return IL_FALSE;
-			Size *= Info.Width * Info.Height * Info.Depth;
-			iCurImage->Format = IL_LUMINANCE;
 			break;
 
 		case PAM_GRAY_ALPHA:
@@ -513,10 +474,8 @@ ILboolean ilReadPam()
 				ilSetError(IL_INVALID_FILE_HEADER);
 				return IL_FALSE;
 			}
-			if (!ilTexImage(Info.Width, Info.Height, 1, Info.Depth, 0, Info.Type, NULL))
+			if (!ilTexImage(Info.Width, Info.Height, 1, Info.Depth, IL_LUMINANCE_ALPHA, Info.Type, NULL))
 				return IL_FALSE;
-			Size *= Info.Width * Info.Height * Info.Depth;
-			iCurImage->Format = IL_LUMINANCE_ALPHA;
 			break;
 
 		case PAM_RGB:
@@ -525,10 +484,8 @@ ILboolean ilReadPam()
 				ilSetError(IL_INVALID_FILE_HEADER);
 				return IL_FALSE;
 			}
-			if (!ilTexImage(Info.Width, Info.Height, 1, Info.Depth, 0, Info.Type, NULL))
+			if (!ilTexImage(Info.Width, Info.Height, 1, Info.Depth, IL_RGB, Info.Type, NULL))
 				return IL_FALSE;
-			Size *= Info.Width * Info.Height * Info.Depth;
-			iCurImage->Format = IL_RGB;
 			break;
 
 		case PAM_RGB_ALPHA:
@@ -537,10 +494,8 @@ ILboolean ilReadPam()
 				ilSetError(IL_INVALID_FILE_HEADER);
 				return IL_FALSE;
 			}
-			if (!ilTexImage(Info.Width, Info.Height, 1, Info.Depth, 0, Info.Type, NULL))
+			if (!ilTexImage(Info.Width, Info.Height, 1, Info.Depth, IL_RGBA, Info.Type, NULL))
 				return IL_FALSE;
-			Size *= Info.Width * Info.Height * Info.Depth;
-			iCurImage->Format = IL_RGBA;
 			break;
 
 		default:
@@ -550,11 +505,8 @@ ILboolean ilReadPam()
 	}
 	iCurImage->Origin = IL_ORIGIN_UPPER_LEFT;
 
-	if (iread(iCurImage->Data, 1, Size) != Size)
-	{
-		ilCloseImage(iCurImage);
+	if (!iReadPnmData())
 		return IL_FALSE;
-	}
 
 	return ilFixImage();
 }
@@ -579,59 +531,38 @@ ILint DecodeTupleType(string &TupleStr)
 }
 
 
+// Reads the next word of the header and the one character that ends it.
 ILboolean iGetWord(ILboolean final)
 {
 	ILint WordPos = 0;
-	ILint Current = 0;
-	ILboolean Started = IL_FALSE;
-	ILboolean Looping = IL_TRUE;
-
-	if (ieof())
-		return IL_FALSE;
-
-	while (Looping)
-	{
-		while ((Current = igetc()) != IL_EOF && Current != '\n' && Current != '#' && Current != ' ')
-		{
-			if (WordPos >= MAX_BUFFER)  // We have hit the maximum line length.
-				return IL_FALSE;
-
-			if (!isalnum(Current) && Current != '_') {
-				if (Started) {
-					Looping = IL_FALSE;
-					break;
-				}
-				continue;
-			}
-
-			if (Looping)
-				SmallBuff[WordPos++] = Current;
-		}
-		if (Current == IL_EOF)
-			return IL_FALSE;
-		SmallBuff[WordPos] = 0; // 08-17-2008 - was NULL, changed to avoid warning
-		if (final == IL_TRUE)
-	        break;
-
-		if (!Looping)
-			break;
+	ILint Current = ' ';
 
+	while (Current == '#' || Current == ' ' || (Current >= '\t' && Current <= '\r')) {
 		if (Current == '#') {  // '#' is a comment...read until end of line
-			while ((Current = igetc()) != IL_EOF && Current != '\n');
+			while (Current != IL_EOF && Current != '\n')
+				Current = igetc();
+		}
+		else {
+			Current = igetc();
 		}
+	}
 
-		// Get rid of any erroneous spaces
-		while ((Current = igetc()) != IL_EOF) {
-			if (Current != ' ')
-				break;
+	while (Current != IL_EOF && Current != '#' && Current != ' ' && !(Current >= '\t' && Current <= '\r')) {
+		if (WordPos >= MAX_BUFFER - 1) {  // We have hit the maximum line length.
+			ilSetError(IL_INVALID_FILE_HEADER);
+			return IL_FALSE;
 		}
-		iseek(-1, IL_SEEK_CUR);
+		SmallBuff[WordPos++] = (ILbyte)Current;
+		Current = igetc();
+	}
+	SmallBuff[WordPos] = 0; // 08-17-2008 - was NULL, changed to avoid warning
 
-		if (WordPos > 0)
-			break;
+	if (Current == '#') {  // A comment can directly follow the word.
+		while (Current != IL_EOF && Current != '\n')
+			Current = igetc();
 	}
 
-	if (Current == -1 || WordPos == 0) {
+	if (Current == IL_EOF || WordPos == 0) {
 		ilSetError(IL_INVALID_FILE_HEADER);
 		return IL_FALSE;
 	}
@@ -640,7 +571,8 @@ ILboolean iGetWord(ILboolean final)
 }
 
 
-ILstring FName = NULL;
+// Set while an image is saved under a file name: the extension tells what to write.
+static ILconst_string FName = NULL;
 
 //! Writes a Pnm file
 ILboolean ilSavePnm(const ILstring FileName)
@@ -661,7 +593,9 @@ ILboolean ilSavePnm(const ILstring FileName)
 		return IL_FALSE;
 	}
 
+	FName = FileName;
 	PnmSize = ilSavePnmF(PnmFile);
+	FName = NULL;
 	iclosew(PnmFile);
 
 	if (PnmSize == 0)
@@ -686,7 +620,6 @@ ILuint ilSavePnmF(ILHANDLE File)
 ILuint ilSavePnmL(void *Lump, ILuint Size)
 {
 	ILuint Pos;
-	FName = NULL;
 	iSetOutputLump(Lump, Size);
 	Pos = itellw();
 	if (iSavePnmInternal() == IL_FALSE)
@@ -698,7 +631,7 @@ ILuint ilSavePnmL(void *Lump, ILuint Size)
 // Internal function used to save the Pnm.
 ILboolean iSavePnmInternal()
 {
-	ILuint		Bpp, MaxVal = UCHAR_MAX, i = 0, j, k;
+	ILuint		Bpp, MaxVal = UCHAR_MAX, i = 0, j, k, m, Samples;
 	ILenum		Type = 0;
 	ILuint		LinePos = 0;  // Cannot exceed 70 for pnm's!
 	ILboolean	Binary;
@@ -710,7 +643,9 @@ ILboolean iSavePnmInternal()
 		return IL_FALSE;
 	}
 
-	if (iCheckExtension(FName, IL_TEXT("pbm")))
+	if (FName == NULL)
+		Type = IL_PPM_ASCII;
+	else if (iCheckExtension(FName, IL_TEXT("pbm")))
 		Type = IL_PBM_ASCII;
 	else if (iCheckExtension(FName, IL_TEXT("pgm")))
 		Type = IL_PGM_ASCII;
@@ -754,32 +689,30 @@ ILboolean iSavePnmInternal()
 			ilprintf("P1\n");
 			TempImage = iConvertImage(iCurImage, IL_LUMINANCE, IL_UNSIGNED_BYTE);
 			break;
-		//case IL_PBM_BINARY:  // Don't want to mess with saving bits just yet...
-			//Bpp = 1;
-			//ilprintf("P4\n");
-			//break;
 		case IL_PBM_BINARY:
-			ilSetError(IL_FORMAT_NOT_SUPPORTED);
-			return IL_FALSE;
+			Bpp = 1;
+			ilprintf("P4\n");
+			TempImage = iConvertImage(iCurImage, IL_LUMINANCE, IL_UNSIGNED_BYTE);
+			break;
 		case IL_PGM_ASCII:
 			Bpp = 1;
 			ilprintf("P2\n");
-			TempImage = iConvertImage(iCurImage, IL_COLOUR_INDEX, IL_UNSIGNED_BYTE);
+			TempImage = iConvertImage(iCurImage, IL_LUMINANCE, iCurImage->Type);
 			break;
 		case IL_PGM_BINARY:
 			Bpp = 1;
 			ilprintf("P5\n");
-			TempImage = iConvertImage(iCurImage, IL_COLOUR_INDEX, IL_UNSIGNED_BYTE);
+			TempImage = iConvertImage(iCurImage, IL_LUMINANCE, iCurImage->Type);
 			break;
 		case IL_PPM_ASCII:
 			Bpp = 3;
 			ilprintf("P3\n");
-			TempImage = iConvertImage(iCurImage, IL_RGB, IL_UNSIGNED_BYTE);
+			TempImage = iConvertImage(iCurImage, IL_RGB, iCurImage->Type);
 			break;
 		case IL_PPM_BINARY:
 			Bpp = 3;
 			ilprintf("P6\n");
-			TempImage = iConvertImage(iCurImage, IL_RGB, IL_UNSIGNED_BYTE);
+			TempImage = iConvertImage(iCurImage, IL_RGB, iCurImage->Type);
 			break;
 		default:
 			ilSetError(IL_INTERNAL_ERROR);
@@ -791,6 +724,7 @@ ILboolean iSavePnmInternal()
 
 	if (Bpp != TempImage->Bpp) {
 		ilSetError(IL_INVALID_CONVERSION);
+		ilCloseImage(TempImage);
 		return IL_FALSE;
 	}
 
@@ -809,35 +743,36 @@ ILboolean iSavePnmInternal()
 	if (Type != IL_PBM_BINARY && Type != IL_PBM_ASCII)  // not needed for .pbm's (only 0 and 1)
 		ilprintf("%d\n", MaxVal);
 
-	while (i < TempImage->SizeOfPlane) {
-		for (j = 0; j < Bpp; j++) {
-			if (Binary) {
-				if (Type == IL_PBM_BINARY) {
-					iputc((ILubyte)(TempData[i] > 127 ? 1 : 0));
-				}
-				else {
-					iputc(TempData[i]);
-				}
-			}
-			else {
-				if (TempImage->Type == IL_UNSIGNED_BYTE)
-					k = TempData[i];
-				else  // IL_UNSIGNED_SHORT
-					k = *((ILushort*)TempData + i);
-				if (Type == IL_PBM_ASCII) {
-					LinePos += ilprintf("%d ", TempData[i] > 127 ? 1 : 0);
-				}
-				else {
-					LinePos += ilprintf("%d ", TempData[i]);
-				}
+	Samples = TempImage->SizeOfPlane / TempImage->Bpc;
+	while (i < Samples) {
+		if (Type == IL_PBM_BINARY) {  // Eight pixels of a row in a byte, 1 is black.
+			k = 0;
+			for (m = 128; m > 0; m >>= 1) {
+				if (TempData[i++] <= 127)
+					k |= m;
+				if (i % TempImage->Width == 0)
+					break;
 			}
+			iputc((ILubyte)k);
+			continue;
+		}
 
-			if (TempImage->Type == IL_UNSIGNED_SHORT)
-				i++;
+		for (j = 0; j < Bpp; j++) {
+			if (TempImage->Type == IL_UNSIGNED_BYTE)
+				k = TempData[i];
+			else  // IL_UNSIGNED_SHORT
+				k = *((ILushort*)TempData + i);
+
+			if (Binary)
+				iputc((ILubyte)k);
+			else if (Type == IL_PBM_ASCII)
+				LinePos += ilprintf("%d ", k > 127 ? 0 : 1);  // 1 is black.
+			else
+				LinePos += ilprintf("%d ", k);
 			i++;
 		}
 
-		if (LinePos > 65) {  // Just a good number =]
+		if (LinePos > 50) {  // There is room for one more pixel.
 			ilprintf("\n");
 			LinePos = 0;
 		}
@@ -851,15 +786,4 @@ ILboolean iSavePnmInternal()
 }
 
 
-// Converts a .pbm to something viewable.
-void PbmMaximize(ILimage *Image)
-{
-	ILuint i = 0;
-	for (i = 0; i < Image->SizeOfPlane; i++)
-		if (Image->Data[i] == 1)
-			Image->Data[i] = 0xFF;
-	return;
-}
-
-
 #endif//IL_NO_PNM
-- 
2.43.0


From b030ab48ba0dc08ad983db1b4e5b0a828ca818c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:57 +0000
Subject: [PATCH 014/115] fix: image conversions that read outside palettes,
 lose channels, leak or use the wrong image

---
 DevIL/src-IL/src/il_convbuff.cpp | 185 ++++++++++-----
 DevIL/src-IL/src/il_convert.cpp  | 383 ++++++++++---------------------
 2 files changed, 237 insertions(+), 331 deletions(-)

diff --git a/DevIL/src-IL/src/il_convbuff.cpp b/DevIL/src-IL/src/il_convbuff.cpp
index 3ed07a2..0d769ea 100644
--- a/DevIL/src-IL/src/il_convbuff.cpp
+++ b/DevIL/src-IL/src/il_convbuff.cpp
@@ -26,6 +26,36 @@ void* ILAPIENTRY iSwitchTypes(ILuint SizeOfData, ILenum SrcType, ILenum DestType
 
 ILimage *iConvertPalette(ILimage *Image, ILenum DestFormat);
 
+// Makes an unsigned integer of a value, clamping it to the range.
+static ILuint iClampUint(ILdouble Value)
+{
+	if (Value >= (ILdouble)UINT_MAX)
+		return UINT_MAX;
+	return Value <= 0.0 ? 0 : (ILuint)Value;
+}
+
+
+// Sets Num values of a channel to the value that means opaque.
+static void iFillOpaque(void *Data, ILuint Num, ILenum Type)
+{
+	ILuint i;
+
+	switch (Type)
+	{
+		case IL_FLOAT:
+			for (i = 0; i < Num; i++)
+				((ILfloat*)Data)[i] = 1.0f;
+			break;
+		case IL_DOUBLE:
+			for (i = 0; i < Num; i++)
+				((ILdouble*)Data)[i] = 1.0;
+			break;
+		default:
+			memset(Data, 0xFF, (size_t)Num * ilGetBpcType(Type));
+	}
+}
+
+
 #define CHECK_ALLOC() 	if (NewData == NULL) { \
 							if (Data != Buffer) \
 								ifree(Data); \
@@ -52,27 +82,29 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 		return NULL;
 	}
 
-	Data = iSwitchTypes(SizeOfData, SrcType, DestType, Buffer);
-	if (Data == NULL)
+	// Only an indexed image can be given out as indices.
+	if (DestFormat == IL_COLOUR_INDEX && SrcFormat != IL_COLOUR_INDEX) {
+		ilSetError(IL_INVALID_CONVERSION);
 		return NULL;
+	}
 
-	BpcDest = ilGetBpcType(DestType);
-	NumPix = SizeOfData / ilGetBpcType(SrcType);
-
-	if (DestFormat == SrcFormat) {
-		NewData = (ILubyte*)ialloc(NumPix * BpcDest);
-		if (NewData == NULL) {
-			return IL_FALSE;
-		}
-		memcpy(NewData, Data, NumPix * BpcDest);
-		if (Data != Buffer)
-			ifree(Data);
-
+	// Channels of half floats cannot be mixed as such, so go through floats.
+	if (DestType == IL_HALF && DestFormat != SrcFormat) {
+		NumPix = SizeOfData / (ilGetBpcType(SrcType) * ilGetBppFormat(SrcFormat));
+		Data = ilConvertBuffer(SizeOfData, SrcFormat, DestFormat, SrcType, IL_FLOAT, SrcPal, Buffer);
+		if (Data == NULL)
+			return NULL;
+		NewData = (ILubyte*)iSwitchTypes(NumPix * ilGetBppFormat(DestFormat) * sizeof(ILfloat), IL_FLOAT, IL_HALF, Data);
+		ifree(Data);
 		return NewData;
 	}
 
 	// Colour-indexed images are special here
-	if (SrcFormat == IL_COLOUR_INDEX) {
+	if (SrcFormat == IL_COLOUR_INDEX && DestFormat != IL_COLOUR_INDEX) {
+		if (SrcPal == NULL || ilGetBpcType(SrcType) != 1) {
+			ilSetError(IL_INVALID_CONVERSION);
+			return NULL;
+		}
 		// We create a temporary palette image so that we can send it to iConvertPalette.
 		PalImage = (ILimage*)icalloc(1, sizeof(ILimage));  // Much better to have it all set to 0.
 		if (PalImage == NULL)
@@ -81,39 +113,58 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 		PalImage->Pal.Palette = SrcPal->Palette;
 		PalImage->Pal.PalSize = SrcPal->PalSize;
 		PalImage->Pal.PalType = SrcPal->PalType;
-		PalImage->Width = NumPix;
+		PalImage->Width = SizeOfData;
 		PalImage->Height = 1;
 		PalImage->Depth = 1;
 		PalImage->Format = IL_COLOUR_INDEX;
 		PalImage->Type = IL_UNSIGNED_BYTE;
 		PalImage->Data = (ILubyte*)Buffer;
 		PalImage->Bpp = 1;
+		PalImage->Bpc = 1;
 		PalImage->SizeOfData = SizeOfData;
 
 		// Convert the paletted image to a different format.
 		TempImage = iConvertPalette(PalImage, DestFormat);
-		if (TempImage == NULL) {
-			// So that we do not delete the original palette or data.
-			PalImage->Pal.Palette = NULL;
-			PalImage->Data = NULL;
-			ilCloseImage(PalImage);
+		// So that we do not delete the original palette or data.
+		PalImage->Pal.Palette = NULL;
+		PalImage->Data = NULL;
+		ilCloseImage(PalImage);
+		if (TempImage == NULL)
 			return NULL;
-		}
 
 		// Set TempImage->Data to NULL so that we can preserve it via NewData, or
 		//  else it would get wiped out by ilCloseImage.
+		Size = TempImage->SizeOfData;
 		NewData = TempImage->Data;
 		TempImage->Data = NULL;
-		// So that we do not delete the original palette or data.
-		PalImage->Pal.Palette = NULL;
-		PalImage->Data = NULL;
-
-		// Clean up here.
-		ilCloseImage(PalImage);
 		ilCloseImage(TempImage);
+
+		if (DestType == IL_UNSIGNED_BYTE)
+			return NewData;
+		Data = iSwitchTypes(Size, IL_UNSIGNED_BYTE, DestType, NewData);
+		ifree(NewData);
+		return Data;
+	}
+
+	Data = iSwitchTypes(SizeOfData, SrcType, DestType, Buffer);
+	if (Data == NULL)
+		return NULL;
+
+	BpcDest = ilGetBpcType(DestType);
+	NumPix = SizeOfData / ilGetBpcType(SrcType);
+
+	if (DestFormat == SrcFormat) {
+		if (Data != Buffer)
+			return Data;
+		NewData = (ILubyte*)ialloc(NumPix * BpcDest);
+		if (NewData == NULL) {
+			return IL_FALSE;
+		}
+		memcpy(NewData, Data, NumPix * BpcDest);
+
 		return NewData;
 	}
-	
+
 	switch (SrcFormat)
 	{
 		case IL_RGB:
@@ -320,11 +371,11 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 						case IL_UNSIGNED_INT:
 						case IL_INT:
 							for (i = 0; i < Size; i++) {
-								Resultf = 0;
+								Resultd = 0;
 								for (c = 0; c < 3; c++) {
-									Resultf += ((ILuint*)(Data))[i * 3 + c] * LumFactor[c];
+									Resultd += ((ILuint*)(Data))[i * 3 + c] * LumFactor[c];
 								}
-								((ILuint*)(NewData))[i] = (ILuint)Resultf;
+								((ILuint*)(NewData))[i] = iClampUint(Resultd);
 							}
 							break;
 						case IL_FLOAT:
@@ -380,11 +431,11 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 						case IL_UNSIGNED_INT:
 						case IL_INT:
 							for (i = 0; i < Size; i++) {
-								Resultf = 0;
+								Resultd = 0;
 								for (c = 0; c < 3; c++) {
-									Resultf += ((ILuint*)(Data))[i * 3 + c] * LumFactor[c];
+									Resultd += ((ILuint*)(Data))[i * 3 + c] * LumFactor[c];
 								}
-								((ILuint*)(NewData))[i*2] = (ILuint)Resultf;
+								((ILuint*)(NewData))[i*2] = iClampUint(Resultd);
 								((ILuint*)(NewData))[i*2+1] = UINT_MAX;
 							}
 							break;
@@ -414,7 +465,7 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 				case IL_ALPHA:
 					NewData = (ILubyte*)ialloc(NumPix * BpcDest / 3);
 					CHECK_ALLOC();
-					memset(NewData, 0, NumPix * BpcDest);
+					iFillOpaque(NewData, NumPix / 3, DestType);
 					break;
 
 				default:
@@ -628,7 +679,7 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 								for (c = 0; c < 3; c++) {
 									Resultd += ((ILuint*)(Data))[i * 4 + c] * LumFactor[c];
 								}
-								((ILuint*)(NewData))[i] = (ILuint)Resultd;
+								((ILuint*)(NewData))[i] = iClampUint(Resultd);
 							}
 							break;
 						case IL_FLOAT:
@@ -688,7 +739,7 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 								for (c = 0; c < 3; c++) {
 									Resultd += ((ILuint*)(Data))[i * 2 + c] * LumFactor[c];
 								}
-								((ILuint*)(NewData))[i] = (ILuint)Resultd;
+								((ILuint*)(NewData))[i] = iClampUint(Resultd);
 								((ILuint*)(NewData))[i+1] = ((ILuint*)(Data))[i * 2 + 3];
 							}
 							break;
@@ -969,7 +1020,7 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 								for (c = 0; c < 3; c++, j--) {
 									Resultd += ((ILuint*)(Data))[i * 3 + c] * LumFactor[j];
 								}
-								((ILuint*)(NewData))[i] = (ILuint)Resultd;
+								((ILuint*)(NewData))[i] = iClampUint(Resultd);
 							}
 							break;
 						case IL_FLOAT:
@@ -1004,7 +1055,7 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 							for (i = 0; i < Size; i++) {
 								Resultf = 0;
 								for (c = 0; c < 3; c++) {
-									Resultf += ((ILubyte*)(Data))[i * 3 + c] * LumFactor[c];
+									Resultf += ((ILubyte*)(Data))[i * 3 + c] * LumFactor[2 - c];
 								}
 								NewData[i*2] = (ILubyte)Resultf;
 								NewData[i*2+1] = UCHAR_MAX;
@@ -1016,7 +1067,7 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 							for (i = 0; i < Size; i++) {
 								Resultf = 0;
 								for (c = 0; c < 3; c++) {
-									Resultf += ((ILushort*)(Data))[i * 3 + c] * LumFactor[c];
+									Resultf += ((ILushort*)(Data))[i * 3 + c] * LumFactor[2 - c];
 								}
 								((ILushort*)(NewData))[i*2] = (ILushort)Resultf;
 								((ILushort*)(NewData))[i*2+1] = USHRT_MAX;
@@ -1025,11 +1076,11 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 						case IL_UNSIGNED_INT:
 						case IL_INT:
 							for (i = 0; i < Size; i++) {
-								Resultf = 0;
+								Resultd = 0;
 								for (c = 0; c < 3; c++) {
-									Resultf += ((ILuint*)(Data))[i * 3 + c] * LumFactor[c];
+									Resultd += ((ILuint*)(Data))[i * 3 + c] * LumFactor[2 - c];
 								}
-								((ILuint*)(NewData))[i*2] = (ILuint)Resultf;
+								((ILuint*)(NewData))[i*2] = iClampUint(Resultd);
 								((ILuint*)(NewData))[i*2+1] = UINT_MAX;
 							}
 							break;
@@ -1037,7 +1088,7 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 							for (i = 0; i < Size; i++) {
 								Resultf = 0;
 								for (c = 0; c < 3; c++) {
-									Resultf += ((ILfloat*)(Data))[i * 3 + c] * LumFactor[c];
+									Resultf += ((ILfloat*)(Data))[i * 3 + c] * LumFactor[2 - c];
 								}
 								((ILfloat*)(NewData))[i*2] = Resultf;
 								((ILfloat*)(NewData))[i*2+1] = 1.0f;
@@ -1047,7 +1098,7 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 							for (i = 0; i < Size; i++) {
 								Resultd = 0;
 								for (c = 0; c < 3; c++) {
-									Resultd += ((ILdouble*)(Data))[i * 3 + c] * LumFactor[c];
+									Resultd += ((ILdouble*)(Data))[i * 3 + c] * LumFactor[2 - c];
 								}
 								((ILdouble*)(NewData))[i*2] = Resultd;
 								((ILdouble*)(NewData))[i*2+1] = 1.0;
@@ -1059,7 +1110,7 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 				case IL_ALPHA:
 					NewData = (ILubyte*)ialloc(NumPix * BpcDest / 3);
 					CHECK_ALLOC();
-					memset(NewData, 0, NumPix * BpcDest / 3);
+					iFillOpaque(NewData, NumPix / 3, DestType);
 					break;
 
 				default:
@@ -1273,7 +1324,7 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 								for (c = 0; c < 3; c++, j--) {
 									Resultd += ((ILuint*)(Data))[i * 4 + c] * LumFactor[j];
 								}
-								((ILuint*)(NewData))[i] = (ILuint)Resultd;
+								((ILuint*)(NewData))[i] = iClampUint(Resultd);
 							}
 							break;
 						case IL_FLOAT:
@@ -1308,7 +1359,7 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 							for (i = 0; i < Size; i += 2) {
 								Resultf = 0.0f;
 								for (c = 0; c < 3; c++) {
-									Resultf += ((ILubyte*)(Data))[i * 2 + c] * LumFactor[c];
+									Resultf += ((ILubyte*)(Data))[i * 2 + c] * LumFactor[2 - c];
 								}
 								NewData[i] = (ILubyte)Resultf;
 								NewData[i+1] = ((ILubyte*)(Data))[i * 2 + 3];
@@ -1320,7 +1371,7 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 							for (i = 0; i < Size; i += 2) {
 								Resultf = 0.0f;
 								for (c = 0; c < 3; c++) {
-									Resultf += ((ILushort*)(Data))[i * 2 + c] * LumFactor[c];
+									Resultf += ((ILushort*)(Data))[i * 2 + c] * LumFactor[2 - c];
 								}
 								((ILushort*)(NewData))[i] = (ILushort)Resultf;
 								((ILushort*)(NewData))[i+1] = ((ILushort*)(Data))[i * 2 + 3];
@@ -1331,9 +1382,9 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 							for (i = 0; i < Size; i += 2) {
 								Resultd = 0.0;
 								for (c = 0; c < 3; c++) {
-									Resultd += ((ILuint*)(Data))[i * 2 + c] * LumFactor[c];
+									Resultd += ((ILuint*)(Data))[i * 2 + c] * LumFactor[2 - c];
 								}
-								((ILuint*)(NewData))[i] = (ILuint)Resultd;
+								((ILuint*)(NewData))[i] = iClampUint(Resultd);
 								((ILuint*)(NewData))[i+1] = ((ILuint*)(Data))[i * 2 + 3];
 							}
 							break;
@@ -1341,7 +1392,7 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 							for (i = 0; i < Size; i += 2) {
 								Resultd = 0.0;
 								for (c = 0; c < 3; c++) {
-									Resultd += ((ILfloat*)(Data))[i * 2 + c] * LumFactor[c];
+									Resultd += ((ILfloat*)(Data))[i * 2 + c] * LumFactor[2 - c];
 								}
 								((ILfloat*)(NewData))[i] = (ILfloat)Resultd;
 								((ILfloat*)(NewData))[i+1] = ((ILfloat*)(Data))[i * 2 + 3];
@@ -1351,7 +1402,7 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 							for (i = 0; i < Size; i += 2) {
 								Resultd = 0.0;
 								for (c = 0; c < 3; c++) {
-									Resultd += ((ILdouble*)(Data))[i * 2 + c] * LumFactor[c];
+									Resultd += ((ILdouble*)(Data))[i * 2 + c] * LumFactor[2 - c];
 								}
 								((ILdouble*)(NewData))[i] = Resultd;
 								((ILdouble*)(NewData))[i+1] = ((ILdouble*)(Data))[i * 2 + 3];
@@ -1559,7 +1610,7 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 				case IL_ALPHA:
 					NewData = (ILubyte*)ialloc(NumPix * BpcDest);
 					CHECK_ALLOC();
-					memset(NewData, 0, NumPix * BpcDest);
+					iFillOpaque(NewData, NumPix, DestType);
 					break;
 
 				/*case IL_COLOUR_INDEX:
@@ -1744,30 +1795,30 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 						case IL_UNSIGNED_BYTE:
 						case IL_BYTE:
 							for (i = 0; i < Size; i++) {
-								NewData[i] = ((ILubyte*)(Data))[i * 2 + 3];
+								NewData[i] = ((ILubyte*)(Data))[i * 2 + 1];
 							}
 							break;
 						case IL_UNSIGNED_SHORT:
 						case IL_SHORT:
 						case IL_HALF:
 							for (i = 0; i < Size; i++) {
-								((ILushort*)(NewData))[i] = ((ILushort*)(Data))[i * 2 + 3];
+								((ILushort*)(NewData))[i] = ((ILushort*)(Data))[i * 2 + 1];
 							}
 							break;
 						case IL_UNSIGNED_INT:
 						case IL_INT:
 							for (i = 0; i < Size; i++) {
-								((ILuint*)(NewData))[i] = ((ILuint*)(Data))[i * 2 + 3];
+								((ILuint*)(NewData))[i] = ((ILuint*)(Data))[i * 2 + 1];
 							}
 							break;
 						case IL_FLOAT:
 							for (i = 0; i < Size; i++) {
-								((ILfloat*)(NewData))[i] = ((ILfloat*)(Data))[i * 2 + 3];
+								((ILfloat*)(NewData))[i] = ((ILfloat*)(Data))[i * 2 + 1];
 							}
 							break;
 						case IL_DOUBLE:
 							for (i = 0; i < Size; i++) {
-								((ILdouble*)(NewData))[i] = ((ILdouble*)(Data))[i * 2 + 3];
+								((ILdouble*)(NewData))[i] = ((ILdouble*)(Data))[i * 2 + 1];
 							}
 							break;
 					}
@@ -1952,6 +2003,10 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 					return NULL;
 			}
 			break;
+
+		default:
+			ilSetError(IL_INVALID_CONVERSION);
+			break;
 	}
 
 	if (Data != Buffer)
@@ -1995,6 +2050,10 @@ void* ILAPIENTRY iSwitchTypes(ILuint SizeOfData, ILenum SrcType, ILenum DestType
 		return IL_FALSE;
 	}
 
+	// Signed and unsigned integers of one size share their bits, as between different sizes.
+	if (BpcSrc == BpcDest)
+		memcpy(NewData, Buffer, Size * BpcDest);
+
 	switch (DestType)
 	{
 		case IL_UNSIGNED_BYTE:
@@ -2123,7 +2182,7 @@ void* ILAPIENTRY iSwitchTypes(ILuint SizeOfData, ILenum SrcType, ILenum DestType
 					for (i = 0; i < Size; i++) {
 						#if CLAMP_FLOATS
 							tempFloat = IL_CLAMP(((ILfloat*)Buffer)[i]);
-							IntPtr[i] = (ILuint)(tempFloat * UINT_MAX);
+							IntPtr[i] = iClampUint((ILdouble)tempFloat * UINT_MAX);
 						#else
 							IntPtr[i] = (ILuint)( ((ILfloat*)Buffer)[i] * UINT_MAX);
 						#endif
@@ -2134,10 +2193,10 @@ void* ILAPIENTRY iSwitchTypes(ILuint SizeOfData, ILenum SrcType, ILenum DestType
 						#if CLAMP_FLOATS
 							*((ILuint*)&tempFloat) = ilHalfToFloat(((ILushort*)Buffer)[i]);
 							tempFloat = IL_CLAMP(tempFloat);
-							IntPtr[i] = (ILuint)(tempFloat * UINT_MAX);
+							IntPtr[i] = iClampUint((ILdouble)tempFloat * UINT_MAX);
 						#else
 						*((ILuint*)&tempFloat) = ilHalfToFloat(((ILushort*)Buffer)[i]);
-						IntPtr[i] = (ILuint)(tempFloat * UINT_MAX);
+						IntPtr[i] = iClampUint((ILdouble)tempFloat * UINT_MAX);
 						#endif
 					}
 					break;
diff --git a/DevIL/src-IL/src/il_convert.cpp b/DevIL/src-IL/src/il_convert.cpp
index ef7aa63..3e286e0 100644
--- a/DevIL/src-IL/src/il_convert.cpp
+++ b/DevIL/src-IL/src/il_convert.cpp
@@ -15,254 +15,101 @@
 #include <limits.h>
 
 
+// Makes a new image of an indexed one, with the colours of its palette in DestFormat.
 ILimage *iConvertPalette(ILimage *Image, ILenum DestFormat)
 {
 	static const ILfloat LumFactor[3] = { 0.212671f, 0.715160f, 0.072169f };  // http://www.inforamp.net/~poynton/ and libpng's libpng.txt - Used for conversion to luminance.
-	ILimage		*NewImage = NULL, *CurImage = NULL;
-	ILuint		i, j, k, c, Size, LumBpp = 1;
-	ILfloat		Resultf;
-	ILubyte		*Temp = NULL;
-	ILboolean	Converted;
-	ILboolean	HasAlpha;
-
-	NewImage = (ILimage*)icalloc(1, sizeof(ILimage));  // Much better to have it all set to 0.
-	if (NewImage == NULL) {
-		return IL_FALSE;
-	}
-
-	ilCopyImageAttr(NewImage, Image);
+	ILimage		*NewImage = NULL;
+	ILpal		*Pal;
+	ILuint		i, c, NumCols, NewBpp;
+	ILubyte		Table[256 * 4], *Colour, Result[4];
 
 	if (!Image->Pal.Palette || !Image->Pal.PalSize || Image->Pal.PalType == IL_PAL_NONE || Image->Bpp != 1) {
-		ilCloseImage(NewImage);
 		ilSetError(IL_ILLEGAL_OPERATION);
 		return NULL;
 	}
-
-	if (DestFormat == IL_LUMINANCE || DestFormat == IL_LUMINANCE_ALPHA) {
-		if (NewImage->Pal.Palette)
-			ifree(NewImage->Pal.Palette);
-		if (DestFormat == IL_LUMINANCE_ALPHA)
-			LumBpp = 2;
-
-		switch (iCurImage->Pal.PalType)
-		{
-			case IL_PAL_RGB24:
-			case IL_PAL_RGB32:
-			case IL_PAL_RGBA32:
-				Temp = (ILubyte*)ialloc(LumBpp * Image->Pal.PalSize / ilGetBppPal(Image->Pal.PalType));
-				if (Temp == NULL)
-					goto alloc_error;
-
-				Size = ilGetBppPal(Image->Pal.PalType);
-				for (i = 0, k = 0; i < Image->Pal.PalSize; i += Size, k += LumBpp) {
-					Resultf = 0.0f;
-					for (c = 0; c < Size; c++) {
-						Resultf += Image->Pal.Palette[i + c] * LumFactor[c];
-					}
-					Temp[k] = (ILubyte)Resultf;
-					if (LumBpp == 2) {
-						if (iCurImage->Pal.PalType == IL_PAL_RGBA32)
-							Temp[k+1] = Image->Pal.Palette[i + 3];
-						else
-							Temp[k+1] = 0xff;
-					}
-				}
-
-				break;
-
-			case IL_PAL_BGR24:
-			case IL_PAL_BGR32:
-			case IL_PAL_BGRA32:
-				Temp = (ILubyte*)ialloc(LumBpp * Image->Pal.PalSize / ilGetBppPal(Image->Pal.PalType));
-				if (Temp == NULL)
-					goto alloc_error;
-
-				Size = ilGetBppPal(Image->Pal.PalType);
-				for (i = 0, k = 0; i < Image->Pal.PalSize; i += Size, k += LumBpp) {
-					Resultf = 0.0f;  j = 2;
-					for (c = 0; c < Size; c++, j--) {
-						Resultf += Image->Pal.Palette[i + c] * LumFactor[j];
-					}
-					Temp[k] = (ILubyte)Resultf;
-					if (LumBpp == 2) {
-						if (iCurImage->Pal.PalType == IL_PAL_RGBA32)
-							Temp[k+1] = Image->Pal.Palette[i + 3];
-						else
-							Temp[k+1] = 0xff;
-					}
-				}
-
-				break;
-		}
-
-		NewImage->Pal.Palette = NULL;
-		NewImage->Pal.PalSize = 0;
-		NewImage->Pal.PalType = IL_PAL_NONE;
-		NewImage->Format = DestFormat;
-		NewImage->Bpp = LumBpp;
-		NewImage->Bps = NewImage->Width * LumBpp;
-		NewImage->SizeOfData = NewImage->SizeOfPlane = NewImage->Bps * NewImage->Height;
-		NewImage->Data = (ILubyte*)ialloc(NewImage->SizeOfData);
-		if (NewImage->Data == NULL)
-			goto alloc_error;
-
-		if (LumBpp == 2) {
-			for (i = 0; i < Image->SizeOfData; i++) {
-				NewImage->Data[i*2] = Temp[Image->Data[i] * 2];
-				NewImage->Data[i*2+1] = Temp[Image->Data[i] * 2 + 1];
-			}
-		}
-		else {
-			for (i = 0; i < Image->SizeOfData; i++) {
-				NewImage->Data[i] = Temp[Image->Data[i]];
-			}
-		}
-
-		ifree(Temp);
-
-		return NewImage;
+	NewBpp = ilGetBppFormat(DestFormat);
+	if (NewBpp == 0) {
+		ilSetError(IL_INVALID_CONVERSION);
+		return NULL;
 	}
-	else if (DestFormat == IL_ALPHA) {
-		if (NewImage->Pal.Palette)
-			ifree(NewImage->Pal.Palette);
-
-		switch (iCurImage->Pal.PalType)
-		{
-			// Opaque, so all the values are 0xFF.
-			case IL_PAL_RGB24:
-			case IL_PAL_RGB32:
-			case IL_PAL_BGR24:
-			case IL_PAL_BGR32:
-				HasAlpha = IL_FALSE;
-				break;
-
-			case IL_PAL_BGRA32:
-			case IL_PAL_RGBA32:
-				HasAlpha = IL_TRUE;
-				Temp = (ILubyte*)ialloc(1 * Image->Pal.PalSize / ilGetBppPal(Image->Pal.PalType));
-				if (Temp == NULL)
-					goto alloc_error;
-
-				Size = ilGetBppPal(Image->Pal.PalType);
-				for (i = 0, k = 0; i < Image->Pal.PalSize; i += Size, k += 1) {
-					Temp[k] = Image->Pal.Palette[i + 3];
-				}
-
-				break;
-		}
-
-		NewImage->Pal.Palette = NULL;
-		NewImage->Pal.PalSize = 0;
-		NewImage->Pal.PalType = IL_PAL_NONE;
-		NewImage->Format = DestFormat;
-		NewImage->Bpp = LumBpp;
-		NewImage->Bps = NewImage->Width * 1;  // Alpha is only one byte.
-		NewImage->SizeOfData = NewImage->SizeOfPlane = NewImage->Bps * NewImage->Height;
-		NewImage->Data = (ILubyte*)ialloc(NewImage->SizeOfData);
-		if (NewImage->Data == NULL)
-			goto alloc_error;
-
-		if (HasAlpha) {
-			for (i = 0; i < Image->SizeOfData; i++) {
-				NewImage->Data[i*2] = Temp[Image->Data[i] * 2];
-				NewImage->Data[i*2+1] = Temp[Image->Data[i] * 2 + 1];
-			}
-		}
-		else {  // No alpha, opaque.
-			for (i = 0; i < Image->SizeOfData; i++) {
-				NewImage->Data[i] = 0xFF;
-			}
-		}
 
-		ifree(Temp);
-
-		return NewImage;
+	NewImage = (ILimage*)icalloc(1, sizeof(ILimage));  // Much better to have it all set to 0.
+	if (NewImage == NULL) {
+		return NULL;
+	}
+	if (!ilCopyImageAttr(NewImage, Image)) {
+		ilCloseImage(NewImage);
+		return NULL;
 	}
 
-	//NewImage->Format = ilGetPalBaseType(iCurImage->Pal.PalType);
 	NewImage->Format = DestFormat;
-
-	if (ilGetBppFormat(NewImage->Format) == 0) {
+	NewImage->Bpp = (ILubyte)NewBpp;
+	NewImage->Bpc = 1;
+	NewImage->Bps = NewImage->Width * NewBpp;
+	NewImage->SizeOfPlane = NewImage->Bps * NewImage->Height;
+	NewImage->SizeOfData = NewImage->SizeOfPlane * NewImage->Depth;
+	NewImage->Data = (ILubyte*)ialloc(NewImage->SizeOfData);
+	if (NewImage->Data == NULL) {
 		ilCloseImage(NewImage);
-		ilSetError(IL_ILLEGAL_OPERATION);
 		return NULL;
 	}
 
-	CurImage = iCurImage;
-	ilSetCurImage(NewImage);
-
-	switch (DestFormat)
-	{
-		case IL_RGB:
-			Converted = ilConvertPal(IL_PAL_RGB24);
-			break;
-
-		case IL_BGR:
-			Converted = ilConvertPal(IL_PAL_BGR24);
-			break;
-
-		case IL_RGBA:
-			Converted = ilConvertPal(IL_PAL_RGB32);
-			break;
-
-		case IL_BGRA:
-			Converted = ilConvertPal(IL_PAL_BGR32);
-			break;
-
-		case IL_COLOUR_INDEX:
-			// Just copy the original image over.
-			NewImage->Data = (ILubyte*)ialloc(CurImage->SizeOfData);
-			if (NewImage->Data == NULL)
-				goto alloc_error;
-			NewImage->Pal.Palette = (ILubyte*)ialloc(iCurImage->Pal.PalSize);
-			if (NewImage->Pal.Palette == NULL)
-				goto alloc_error;
-			memcpy(NewImage->Data, CurImage->Data, CurImage->SizeOfData);
-			memcpy(NewImage->Pal.Palette, Image->Pal.Palette, Image->Pal.PalSize);
-			NewImage->Pal.PalSize = Image->Pal.PalSize;
-			NewImage->Pal.PalType = Image->Pal.PalType;
-			ilSetCurImage(CurImage);
-			return NewImage;
-
-		default:
-			ilCloseImage(NewImage);
-			ilSetError(IL_INVALID_CONVERSION);
-			return NULL;
+	if (DestFormat == IL_COLOUR_INDEX) {
+		// Just copy the original image over.
+		memcpy(NewImage->Data, Image->Data, NewImage->SizeOfData);
+		return NewImage;
 	}
 
-	// Resize to new bpp
-	ilResizeImage(NewImage, NewImage->Width, NewImage->Height, NewImage->Depth, ilGetBppFormat(DestFormat), /*ilGetBpcType(DestType)*/1);
+	ifree(NewImage->Pal.Palette);
+	NewImage->Pal.Palette = NULL;
+	NewImage->Pal.PalSize = 0;
+	NewImage->Pal.PalType = IL_PAL_NONE;
 
-	// ilConvertPal already sets the error message - no need to confuse the user.
-	if (!Converted) {
-		ilSetCurImage(CurImage);
+	// Every index has a colour here, even those that are not in the palette.
+	memset(Table, 0, sizeof(Table));
+	Pal = iConvertPal(&Image->Pal, IL_PAL_RGBA32);
+	if (Pal == NULL) {
+		// iConvertPal already sets the error message - no need to confuse the user.
 		ilCloseImage(NewImage);
 		return NULL;
 	}
+	NumCols = IL_MIN(Pal->PalSize / 4, 256);
+	memcpy(Table, Pal->Palette, NumCols * 4);
+	ilClosePal(Pal);
+
+	for (i = 0; i < 256; i++) {
+		Colour = Table + i * 4;
+		Result[0] = Colour[0];
+		Result[1] = Colour[1];
+		Result[2] = Colour[2];
+		Result[3] = Colour[3];
+		switch (DestFormat)
+		{
+			case IL_BGR:
+			case IL_BGRA:
+				Result[0] = Colour[2];
+				Result[2] = Colour[0];
+				break;
+			case IL_LUMINANCE:
+			case IL_LUMINANCE_ALPHA:
+				Result[0] = (ILubyte)(Colour[0] * LumFactor[0] + Colour[1] * LumFactor[1] + Colour[2] * LumFactor[2]);
+				Result[1] = Colour[3];
+				break;
+			case IL_ALPHA:
+				Result[0] = Colour[3];
+				break;
+		}
+		memcpy(Colour, Result, 4);
+	}
 
-	Size = ilGetBppPal(NewImage->Pal.PalType);
 	for (i = 0; i < Image->SizeOfData; i++) {
-		for (c = 0; c < NewImage->Bpp; c++) {
-			NewImage->Data[i * NewImage->Bpp + c] = NewImage->Pal.Palette[Image->Data[i] * Size + c];
+		for (c = 0; c < NewBpp; c++) {
+			NewImage->Data[i * NewBpp + c] = Table[Image->Data[i] * 4 + c];
 		}
 	}
 
-	ifree(NewImage->Pal.Palette);
-
-	NewImage->Pal.Palette = NULL;
-	NewImage->Pal.PalSize = 0;
-	NewImage->Pal.PalType = IL_PAL_NONE;
-	ilSetCurImage(CurImage);
-
 	return NewImage;
-
-alloc_error:
-	ifree(Temp);
-	if (NewImage)
-		ilCloseImage(NewImage);
-	if (CurImage != iCurImage)
-		ilSetCurImage(CurImage);
-	return NULL;
 }
 
 
@@ -302,13 +149,12 @@ ILAPI ILimage* ILAPIENTRY iConvertImage(ILimage *Image, ILenum DestFormat, ILenu
 
 		NewData = (ILubyte*)ilConvertBuffer(NewImage->SizeOfData, NewImage->Format, DestFormat, NewImage->Type, DestType, NULL, NewImage->Data);
 		if (NewData == NULL) {
-			ifree(NewImage);  // ilCloseImage not needed.
+			ilCloseImage(NewImage);
 			return NULL;
 		}
 		ifree(NewImage->Data);
 		NewImage->Data = NewData;
 
-		ilCopyImageAttr(NewImage, Image);
 		NewImage->Format = DestFormat;
 		NewImage->Type = DestType;
 		NewImage->Bpc = ilGetBpcType(DestType);
@@ -335,7 +181,10 @@ ILAPI ILimage* ILAPIENTRY iConvertImage(ILimage *Image, ILenum DestFormat, ILenu
 			return NULL;
 		}
 
-		ilCopyImageAttr(NewImage, Image);
+		if (!ilCopyImageAttr(NewImage, Image)) {
+			ilCloseImage(NewImage);
+			return NULL;
+		}
 		NewImage->Format = DestFormat;
 		NewImage->Type = DestType;
 		NewImage->Bpc = ilGetBpcType(DestType);
@@ -345,25 +194,30 @@ ILAPI ILimage* ILAPIENTRY iConvertImage(ILimage *Image, ILenum DestFormat, ILenu
 		NewImage->SizeOfData = NewImage->SizeOfPlane * NewImage->Depth;
 
 		if (DestFormat == IL_COLOUR_INDEX && Image->Format == IL_LUMINANCE) {
+			ifree(NewImage->Pal.Palette);
 			NewImage->Pal.PalSize = 768;
 			NewImage->Pal.PalType = IL_PAL_RGB24;
 			NewImage->Pal.Palette = (ILubyte*)ialloc(768);
+			if (NewImage->Pal.Palette == NULL) {
+				ilCloseImage(NewImage);
+				return NULL;
+			}
 			for (i = 0; i < 256; i++) {
 				NewImage->Pal.Palette[i * 3] = i;
 				NewImage->Pal.Palette[i * 3 + 1] = i;
 				NewImage->Pal.Palette[i * 3 + 2] = i;
 			}
-			NewImage->Data = (ILubyte*)ialloc(Image->SizeOfData);
+			// The indices are the grey values in 8 bits.
+			NewImage->Data = (ILubyte*)ilConvertBuffer(Image->SizeOfData, Image->Format, IL_LUMINANCE, Image->Type, DestType, NULL, Image->Data);
 			if (NewImage->Data == NULL) {
 				ilCloseImage(NewImage);
 				return NULL;
 			}
-			memcpy(NewImage->Data, Image->Data, Image->SizeOfData);
 		}
 		else {
 			NewImage->Data = (ILubyte*)ilConvertBuffer(Image->SizeOfData, Image->Format, DestFormat, Image->Type, DestType, NULL, Image->Data);
 			if (NewImage->Data == NULL) {
-				ifree(NewImage);  // ilCloseImage not needed.
+				ilCloseImage(NewImage);
 				return NULL;
 			}
 		}
@@ -392,15 +246,24 @@ ILboolean ILAPIENTRY ilConvertImage(ILenum DestFormat, ILenum DestType)
 	if (DestFormat == iCurImage->Format && DestType == iCurImage->Type)
 		return IL_TRUE;  // No conversion needed.
 
-	if (DestType == iCurImage->Type) {
+	if (ilGetBppFormat(DestFormat) == 0 || ilGetBpcType(DestType) == 0) {
+		ilSetError(IL_INVALID_PARAM);
+		return IL_FALSE;
+	}
+
+	// This only does the current image itself, so the following ones must not need it.
+	if (DestType == iCurImage->Type && iCurImage->Next == NULL) {
 		if (iFastConvert(DestFormat)) {
 			iCurImage->Format = DestFormat;
 			return IL_TRUE;
 		}
 	}
 
-	if (ilIsEnabled(IL_USE_KEY_COLOUR)) {
-		ilAddAlphaKey(iCurImage);
+	// Only these can get an alpha channel.
+	if (ilIsEnabled(IL_USE_KEY_COLOUR) && (iCurImage->Format == IL_COLOUR_INDEX ||
+		iCurImage->Format == IL_RGB || iCurImage->Format == IL_BGR)) {
+		if (!ilAddAlphaKey(iCurImage))
+			return IL_FALSE;
 	}
 
 	pCurImage = iCurImage;
@@ -443,7 +306,7 @@ ILboolean ILAPIENTRY ilConvertImage(ILenum DestFormat, ILenum DestType)
 //	Must be either an 8, 24 or 32-bit (coloured) image (or palette).
 ILboolean ilSwapColours()
 {
-	ILuint		i = 0, Size = iCurImage->Bpp * iCurImage->Width * iCurImage->Height;
+	ILuint		i = 0, Size = iCurImage->Bpp * iCurImage->Width * iCurImage->Height * iCurImage->Depth;
 	ILbyte		PalBpp = ilGetBppPal(iCurImage->Pal.PalType);
 	ILushort	*ShortPtr;
 	ILuint		*IntPtr, Temp;
@@ -575,10 +438,10 @@ ILboolean ilAddAlpha()
 		return IL_FALSE;
 	}
 
-	Size = iCurImage->Bps * iCurImage->Height / iCurImage->Bpc;
+	Size = iCurImage->SizeOfData / iCurImage->Bpc;
 	NewBpp = (ILubyte)(iCurImage->Bpp + 1);
 	
-	NewData = (ILubyte*)ialloc(NewBpp * iCurImage->Bpc * iCurImage->Width * iCurImage->Height);
+	NewData = (ILubyte*)ialloc(NewBpp * iCurImage->Bpc * iCurImage->Width * iCurImage->Height * iCurImage->Depth);
 	if (NewData == NULL) {
 		return IL_FALSE;
 	}
@@ -663,10 +526,11 @@ ILboolean ilAddAlpha()
 
 //ILfloat KeyRed = 0, KeyGreen = 0, KeyBlue = 0, KeyAlpha = 0;
 
+static ILfloat KeyRed = 0, KeyGreen = 0, KeyBlue = 0, KeyAlpha = 0;
+
 void ILAPIENTRY ilKeyColour(ILclampf Red, ILclampf Green, ILclampf Blue, ILclampf Alpha)
 {
-	ILfloat KeyRed = 0, KeyGreen = 0, KeyBlue = 0, KeyAlpha = 0;
-        KeyRed		= Red;
+	KeyRed		= Red;
 	KeyGreen	= Green;
 	KeyBlue		= Blue;
 	KeyAlpha	= Alpha;
@@ -678,8 +542,8 @@ void ILAPIENTRY ilKeyColour(ILclampf Red, ILclampf Green, ILclampf Blue, ILclamp
 //	making the image transparent where Key is equal to the pixel.
 ILboolean ilAddAlphaKey(ILimage *Image)
 {
-	ILfloat KeyRed = 0, KeyGreen = 0, KeyBlue = 0, KeyAlpha = 0;
-        ILubyte		*NewData, NewBpp;
+	ILubyte		*NewData, NewBpp;
+	ILpal		*Pal;
 	ILfloat		KeyColour[3];
 	ILuint		i = 0, j = 0, c, Size;
 	ILboolean	Same;
@@ -706,11 +570,11 @@ ILboolean ilAddAlphaKey(ILimage *Image)
 			KeyColour[2] = KeyBlue;
 		}
 
-		Size = Image->Bps * Image->Height / Image->Bpc;
+		Size = Image->SizeOfData / Image->Bpc;
 
 		NewBpp = (ILubyte)(Image->Bpp + 1);
 		
-		NewData = (ILubyte*)ialloc(NewBpp * Image->Bpc * Image->Width * Image->Height);
+		NewData = (ILubyte*)ialloc(NewBpp * Image->Bpc * Image->Width * Image->Height * Image->Depth);
 		if (NewData == NULL) {
 			return IL_FALSE;
 		}
@@ -725,7 +589,7 @@ ILboolean ilAddAlphaKey(ILimage *Image)
 					NewData[j+2] = Image->Data[i+2];
 					Same = IL_TRUE;
 					for (c = 0; c < Image->Bpp; c++) {
-						if (Image->Data[i+c] != KeyColour[c] * UCHAR_MAX)
+						if (Image->Data[i+c] != (ILubyte)(KeyColour[c] * UCHAR_MAX + 0.5f))
 							Same = IL_FALSE;
 					}
 
@@ -744,7 +608,7 @@ ILboolean ilAddAlphaKey(ILimage *Image)
 					((ILushort*)NewData)[j+2] = ((ILushort*)Image->Data)[i+2];
 					Same = IL_TRUE;
 					for (c = 0; c < Image->Bpp; c++) {
-						if (((ILushort*)Image->Data)[i+c] != KeyColour[c] * USHRT_MAX)
+						if (((ILushort*)Image->Data)[i+c] != (ILushort)((ILdouble)KeyColour[c] * USHRT_MAX + 0.5))
 							Same = IL_FALSE;
 					}
 
@@ -763,7 +627,7 @@ ILboolean ilAddAlphaKey(ILimage *Image)
 					((ILuint*)NewData)[j+2] = ((ILuint*)Image->Data)[i+2];
 					Same = IL_TRUE;
 					for (c = 0; c < Image->Bpp; c++) {
-						if (((ILuint*)Image->Data)[i+c] != KeyColour[c] * UINT_MAX)
+						if (((ILuint*)Image->Data)[i+c] != (ILuint)((ILdouble)KeyColour[c] * UINT_MAX + 0.5))
 							Same = IL_FALSE;
 					}
 
@@ -851,34 +715,17 @@ ILboolean ilAddAlphaKey(ILimage *Image)
 			return IL_FALSE;
 		}
 
-		switch (Image->Pal.PalType)
-		{
-			case IL_PAL_RGB24:
-			case IL_PAL_RGB32:
-			case IL_PAL_RGBA32:
-				if (!ilConvertPal(IL_PAL_RGBA32))
-					return IL_FALSE;
-				break;
-			case IL_PAL_BGR24:
-			case IL_PAL_BGR32:
-			case IL_PAL_BGRA32:
-				if (!ilConvertPal(IL_PAL_BGRA32))
-					return IL_FALSE;
-				break;
-			default:
-				ilSetError(IL_INTERNAL_ERROR);
-				return IL_FALSE;
-		}
+		Pal = iConvertPal(&Image->Pal, IL_PAL_RGBA32);
+		if (Pal == NULL)
+			return IL_FALSE;
+		ifree(Image->Pal.Palette);
+		Image->Pal = *Pal;
+		ifree(Pal);
 
 		// Set the colour index to be transparent.
-		Image->Pal.Palette[(ILuint)(KeyAlpha * UCHAR_MAX) * 4 + 3] = 0;
-
-		// @TODO: Check if this is the required behaviour.
-
-		if (Image->Pal.PalType == IL_PAL_RGBA32)
-			ilConvertImage(IL_RGBA, IL_UNSIGNED_BYTE);
-		else
-			ilConvertImage(IL_BGRA, IL_UNSIGNED_BYTE);
+		i = (ILuint)(KeyAlpha * UCHAR_MAX + 0.5f);
+		if (i < Image->Pal.PalSize / 4)
+			Image->Pal.Palette[i * 4 + 3] = 0;
 	}
 
 	return IL_TRUE;
@@ -902,10 +749,10 @@ ILboolean ilRemoveAlpha()
 		return IL_FALSE;
 	}
 
-	Size = iCurImage->Bps * iCurImage->Height;
+	Size = iCurImage->SizeOfData / iCurImage->Bpc;
 	NewBpp = (ILubyte)(iCurImage->Bpp - 1);
 	
-	NewData = (ILubyte*)ialloc(NewBpp * iCurImage->Bpc * iCurImage->Width * iCurImage->Height);
+	NewData = (ILubyte*)ialloc(NewBpp * iCurImage->Bpc * iCurImage->Width * iCurImage->Height * iCurImage->Depth);
 	if (NewData == NULL) {
 		return IL_FALSE;
 	}
-- 
2.43.0


From e5121285e323bc40cd8056d7128175c7c0eb42b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:57 +0000
Subject: [PATCH 015/115] fix: palette conversion that mis-sizes, leaks or
 drops the converted palette

---
 DevIL/src-IL/src/il_pal.cpp | 80 +++++++++++++++++++------------------
 1 file changed, 42 insertions(+), 38 deletions(-)

diff --git a/DevIL/src-IL/src/il_pal.cpp b/DevIL/src-IL/src/il_pal.cpp
index fd4a510..df7675d 100644
--- a/DevIL/src-IL/src/il_pal.cpp
+++ b/DevIL/src-IL/src/il_pal.cpp
@@ -587,7 +587,7 @@ ILAPI ILpal* ILAPIENTRY iCopyPal()
 ILAPI ILpal* ILAPIENTRY iConvertPal(ILpal *Pal, ILenum DestFormat)
 {
 	ILpal	*NewPal = NULL;
-	ILuint	i, j, NewPalSize;
+	ILuint	i, j, NewPalSize, PalSize;
 
 	// Checks to see if the current image is valid and has a palette
 	if (Pal == NULL || Pal->PalSize == 0 || Pal->Palette == NULL || Pal->PalType == IL_PAL_NONE) {
@@ -595,6 +595,14 @@ ILAPI ILpal* ILAPIENTRY iConvertPal(ILpal *Pal, ILenum DestFormat)
 		return NULL;
 	}
 
+	// Only whole entries
+	PalSize = ilGetBppPal(Pal->PalType);
+	PalSize = PalSize ? Pal->PalSize - Pal->PalSize % PalSize : 0;
+	if (PalSize == 0) {
+		ilSetError(IL_ILLEGAL_OPERATION);
+		return NULL;
+	}
+
 	/*if (Pal->PalType == DestFormat) {
 		return NULL;
 	}*/
@@ -603,7 +611,7 @@ ILAPI ILpal* ILAPIENTRY iConvertPal(ILpal *Pal, ILenum DestFormat)
 	if (NewPal == NULL) {
 		return NULL;
 	}
-	NewPal->PalSize = Pal->PalSize;
+	NewPal->PalSize = PalSize;
 	NewPal->PalType = Pal->PalType;
 
 	switch (DestFormat)
@@ -613,56 +621,56 @@ ILAPI ILpal* ILAPIENTRY iConvertPal(ILpal *Pal, ILenum DestFormat)
 			switch (Pal->PalType)
 			{
 				case IL_PAL_RGB24:
-					NewPal->Palette = (ILubyte*)ialloc(Pal->PalSize);
+					NewPal->Palette = (ILubyte*)ialloc(PalSize);
 					if (NewPal->Palette == NULL)
 						goto alloc_error;
 					if (DestFormat == IL_PAL_BGR24) {
 						j = ilGetBppPal(Pal->PalType);
-						for (i = 0; i < Pal->PalSize; i += j) {
+						for (i = 0; i < PalSize; i += j) {
 							NewPal->Palette[i] = Pal->Palette[i+2];
 							NewPal->Palette[i+1] = Pal->Palette[i+1];
 							NewPal->Palette[i+2] = Pal->Palette[i];
 						}
 					}
 					else {
-						memcpy(NewPal->Palette, Pal->Palette, Pal->PalSize);
+						memcpy(NewPal->Palette, Pal->Palette, PalSize);
 					}
 					NewPal->PalType = DestFormat;
 					break;
 
 				case IL_PAL_BGR24:
-					NewPal->Palette = (ILubyte*)ialloc(Pal->PalSize);
+					NewPal->Palette = (ILubyte*)ialloc(PalSize);
 					if (NewPal->Palette == NULL)
 						goto alloc_error;
 					if (DestFormat == IL_PAL_RGB24) {
 						j = ilGetBppPal(Pal->PalType);
-						for (i = 0; i < Pal->PalSize; i += j) {
+						for (i = 0; i < PalSize; i += j) {
 							NewPal->Palette[i] = Pal->Palette[i+2];
 							NewPal->Palette[i+1] = Pal->Palette[i+1];
 							NewPal->Palette[i+2] = Pal->Palette[i];
 						}
 					}
 					else {
-						memcpy(NewPal->Palette, Pal->Palette, Pal->PalSize);
+						memcpy(NewPal->Palette, Pal->Palette, PalSize);
 					}
 					NewPal->PalType = DestFormat;
 					break;
 
 				case IL_PAL_BGR32:
 				case IL_PAL_BGRA32:
-					NewPalSize = (ILuint)((ILfloat)Pal->PalSize * 3.0f / 4.0f);
+					NewPalSize = PalSize / 4 * 3;
 					NewPal->Palette = (ILubyte*)ialloc(NewPalSize);
 					if (NewPal->Palette == NULL)
 						goto alloc_error;
 					if (DestFormat == IL_PAL_RGB24) {
-						for (i = 0, j = 0; i < Pal->PalSize; i += 4, j += 3) {
+						for (i = 0, j = 0; i < PalSize; i += 4, j += 3) {
 							NewPal->Palette[j]   = Pal->Palette[i+2];
 							NewPal->Palette[j+1] = Pal->Palette[i+1];
 							NewPal->Palette[j+2] = Pal->Palette[i];
 						}
 					}
 					else {
-						for (i = 0, j = 0; i < Pal->PalSize; i += 4, j += 3) {
+						for (i = 0, j = 0; i < PalSize; i += 4, j += 3) {
 							NewPal->Palette[j]   = Pal->Palette[i];
 							NewPal->Palette[j+1] = Pal->Palette[i+1];
 							NewPal->Palette[j+2] = Pal->Palette[i+2];
@@ -674,19 +682,19 @@ ILAPI ILpal* ILAPIENTRY iConvertPal(ILpal *Pal, ILenum DestFormat)
 
 				case IL_PAL_RGB32:
 				case IL_PAL_RGBA32:
-					NewPalSize = (ILuint)((ILfloat)Pal->PalSize * 3.0f / 4.0f);
+					NewPalSize = PalSize / 4 * 3;
 					NewPal->Palette = (ILubyte*)ialloc(NewPalSize);
 					if (NewPal->Palette == NULL)
 						goto alloc_error;
 					if (DestFormat == IL_PAL_RGB24) {
-						for (i = 0, j = 0; i < Pal->PalSize; i += 4, j += 3) {
+						for (i = 0, j = 0; i < PalSize; i += 4, j += 3) {
 							NewPal->Palette[j]   = Pal->Palette[i];
 							NewPal->Palette[j+1] = Pal->Palette[i+1];
 							NewPal->Palette[j+2] = Pal->Palette[i+2];
 						}
 					}
 					else {
-						for (i = 0, j = 0; i < Pal->PalSize; i += 4, j += 3) {
+						for (i = 0, j = 0; i < PalSize; i += 4, j += 3) {
 							NewPal->Palette[j]   = Pal->Palette[i+2];
 							NewPal->Palette[j+1] = Pal->Palette[i+1];
 							NewPal->Palette[j+2] = Pal->Palette[i];
@@ -697,6 +705,7 @@ ILAPI ILpal* ILAPIENTRY iConvertPal(ILpal *Pal, ILenum DestFormat)
 					break;
 
 				default:
+					ifree(NewPal);
 					ilSetError(IL_INVALID_PARAM);
 					return NULL;
 			}
@@ -710,13 +719,13 @@ ILAPI ILpal* ILAPIENTRY iConvertPal(ILpal *Pal, ILenum DestFormat)
 			{
 				case IL_PAL_RGB24:
 				case IL_PAL_BGR24:
-					NewPalSize = Pal->PalSize * 4 / 3;
+					NewPalSize = PalSize / 3 * 4;
 					NewPal->Palette = (ILubyte*)ialloc(NewPalSize);
 					if (NewPal->Palette == NULL)
 						goto alloc_error;
 					if ((Pal->PalType == IL_PAL_BGR24 && (DestFormat == IL_PAL_RGB32 || DestFormat == IL_PAL_RGBA32)) ||
 						(Pal->PalType == IL_PAL_RGB24 && (DestFormat == IL_PAL_BGR32 || DestFormat == IL_PAL_BGRA32))) {
-							for (i = 0, j = 0; i < Pal->PalSize; i += 3, j += 4) {
+							for (i = 0, j = 0; i < PalSize; i += 3, j += 4) {
 								NewPal->Palette[j]   = Pal->Palette[i+2];
 								NewPal->Palette[j+1] = Pal->Palette[i+1];
 								NewPal->Palette[j+2] = Pal->Palette[i];
@@ -724,7 +733,7 @@ ILAPI ILpal* ILAPIENTRY iConvertPal(ILpal *Pal, ILenum DestFormat)
 							}
 					}
 					else {
-						for (i = 0, j = 0; i < Pal->PalSize; i += 3, j += 4) {
+						for (i = 0, j = 0; i < PalSize; i += 3, j += 4) {
 							NewPal->Palette[j]   = Pal->Palette[i];
 							NewPal->Palette[j+1] = Pal->Palette[i+1];
 							NewPal->Palette[j+2] = Pal->Palette[i+2];
@@ -736,12 +745,12 @@ ILAPI ILpal* ILAPIENTRY iConvertPal(ILpal *Pal, ILenum DestFormat)
 					break;
 
 				case IL_PAL_RGB32:
-					NewPal->Palette = (ILubyte*)ialloc(Pal->PalSize);
+					NewPal->Palette = (ILubyte*)ialloc(PalSize);
 					if (NewPal->Palette == NULL)
 						goto alloc_error;
 
 					if (DestFormat == IL_PAL_BGR32 || DestFormat == IL_PAL_BGRA32) {
-						for (i = 0; i < Pal->PalSize; i += 4) {
+						for (i = 0; i < PalSize; i += 4) {
 							NewPal->Palette[i]   = Pal->Palette[i+2];
 							NewPal->Palette[i+1] = Pal->Palette[i+1];
 							NewPal->Palette[i+2] = Pal->Palette[i];
@@ -749,7 +758,7 @@ ILAPI ILpal* ILAPIENTRY iConvertPal(ILpal *Pal, ILenum DestFormat)
 						}
 					}
 					else {
-						for (i = 0; i < Pal->PalSize; i += 4) {
+						for (i = 0; i < PalSize; i += 4) {
 							NewPal->Palette[i]   = Pal->Palette[i];
 							NewPal->Palette[i+1] = Pal->Palette[i+1];
 							NewPal->Palette[i+2] = Pal->Palette[i+2];
@@ -760,11 +769,11 @@ ILAPI ILpal* ILAPIENTRY iConvertPal(ILpal *Pal, ILenum DestFormat)
 					break;
 
 				case IL_PAL_RGBA32:
-					NewPal->Palette = (ILubyte*)ialloc(Pal->PalSize);
+					NewPal->Palette = (ILubyte*)ialloc(PalSize);
 					if (NewPal->Palette == NULL)
 						goto alloc_error;
 					if (DestFormat == IL_PAL_BGR32 || DestFormat == IL_PAL_BGRA32) {
-						for (i = 0; i < Pal->PalSize; i += 4) {
+						for (i = 0; i < PalSize; i += 4) {
 							NewPal->Palette[i]   = Pal->Palette[i+2];
 							NewPal->Palette[i+1] = Pal->Palette[i+1];
 							NewPal->Palette[i+2] = Pal->Palette[i];
@@ -772,17 +781,17 @@ ILAPI ILpal* ILAPIENTRY iConvertPal(ILpal *Pal, ILenum DestFormat)
 						}
 					}
 					else {
-						memcpy(NewPal->Palette, Pal->Palette, Pal->PalSize);
+						memcpy(NewPal->Palette, Pal->Palette, PalSize);
 					}
 					NewPal->PalType = DestFormat;
 					break;
 				
 				case IL_PAL_BGR32:
-					NewPal->Palette = (ILubyte*)ialloc(Pal->PalSize);
+					NewPal->Palette = (ILubyte*)ialloc(PalSize);
 					if (NewPal->Palette == NULL)
 						goto alloc_error;
 					if (DestFormat == IL_PAL_RGB32 || DestFormat == IL_PAL_RGBA32) {
-						for (i = 0; i < Pal->PalSize; i += 4) {
+						for (i = 0; i < PalSize; i += 4) {
 							NewPal->Palette[i]   = Pal->Palette[i+2];
 							NewPal->Palette[i+1] = Pal->Palette[i+1];
 							NewPal->Palette[i+2] = Pal->Palette[i];
@@ -790,7 +799,7 @@ ILAPI ILpal* ILAPIENTRY iConvertPal(ILpal *Pal, ILenum DestFormat)
 						}
 					}
 					else {
-						for (i = 0; i < Pal->PalSize; i += 4) {
+						for (i = 0; i < PalSize; i += 4) {
 							NewPal->Palette[i]   = Pal->Palette[i];
 							NewPal->Palette[i+1] = Pal->Palette[i+1];
 							NewPal->Palette[i+2] = Pal->Palette[i+2];
@@ -801,11 +810,11 @@ ILAPI ILpal* ILAPIENTRY iConvertPal(ILpal *Pal, ILenum DestFormat)
 					break;
 
 				case IL_PAL_BGRA32:
-					NewPal->Palette = (ILubyte*)ialloc(Pal->PalSize);
+					NewPal->Palette = (ILubyte*)ialloc(PalSize);
 					if (NewPal->Palette == NULL)
 						goto alloc_error;
 					if (DestFormat == IL_PAL_RGB32 || DestFormat == IL_PAL_RGBA32) {
-						for (i = 0; i < Pal->PalSize; i += 4) {
+						for (i = 0; i < PalSize; i += 4) {
 							NewPal->Palette[i]   = Pal->Palette[i+2];
 							NewPal->Palette[i+1] = Pal->Palette[i+1];
 							NewPal->Palette[i+2] = Pal->Palette[i];
@@ -813,12 +822,13 @@ ILAPI ILpal* ILAPIENTRY iConvertPal(ILpal *Pal, ILenum DestFormat)
 						}
 					}
 					else {
-						memcpy(NewPal->Palette, Pal->Palette, Pal->PalSize);
+						memcpy(NewPal->Palette, Pal->Palette, PalSize);
 					}
 					NewPal->PalType = DestFormat;
 					break;
 
 				default:
+					ifree(NewPal);
 					ilSetError(IL_INVALID_PARAM);
 					return NULL;
 			}
@@ -826,6 +836,7 @@ ILAPI ILpal* ILAPIENTRY iConvertPal(ILpal *Pal, ILenum DestFormat)
 
 
 		default:
+			ifree(NewPal);
 			ilSetError(IL_INVALID_PARAM);
 			return NULL;
 	}
@@ -858,16 +869,9 @@ ILboolean ILAPIENTRY ilConvertPal(ILenum DestFormat)
 	ifree(iCurImage->Pal.Palette);
 	iCurImage->Pal.PalSize = Pal->PalSize;
 	iCurImage->Pal.PalType = Pal->PalType;
-
-	iCurImage->Pal.Palette = (ILubyte*)ialloc(Pal->PalSize);
-	if (iCurImage->Pal.Palette == NULL) {
-		return IL_FALSE;
-	}
-	memcpy(iCurImage->Pal.Palette, Pal->Palette, Pal->PalSize);
-
-	ifree(Pal->Palette);
+	iCurImage->Pal.Palette = Pal->Palette;
 	ifree(Pal);
-	
+
 	return IL_TRUE;
 }
 
-- 
2.43.0


From 9f5ecff652f3946795e0f095de7aa67f97dc6273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:57 +0000
Subject: [PATCH 016/115] fix: chains of sub-images mixed up, leaked, or named
 images reused while in use

---
 DevIL/src-IL/src/il_stack.cpp | 80 +++++++++++++++++++++--------------
 1 file changed, 48 insertions(+), 32 deletions(-)

diff --git a/DevIL/src-IL/src/il_stack.cpp b/DevIL/src-IL/src/il_stack.cpp
index 286e898..684c03c 100644
--- a/DevIL/src-IL/src/il_stack.cpp
+++ b/DevIL/src-IL/src/il_stack.cpp
@@ -61,12 +61,18 @@ void ILAPIENTRY ilGenImages(ILsizei Num, ILuint *Images)
 			return;
 
 	do {
+		// A deleted name may have come back into use by binding it.
+		while (FreeNames != NULL && ImageStack[FreeNames->Name] != NULL) {
+			TempFree = (iFree*)FreeNames->Next;
+			ifree(FreeNames);
+			FreeNames = TempFree;
+		}
 		if (FreeNames != NULL) {  // If any have been deleted, then reuse their image names.
-                        TempFree = (iFree*)FreeNames->Next;
-                        Images[Index] = FreeNames->Name;
-                        ImageStack[FreeNames->Name] = ilNewImage(1, 1, 1, 1, 1);
-                        ifree(FreeNames);
-                        FreeNames = TempFree;
+			TempFree = (iFree*)FreeNames->Next;
+			Images[Index] = FreeNames->Name;
+			ImageStack[FreeNames->Name] = ilNewImage(1, 1, 1, 1, 1);
+			ifree(FreeNames);
+			FreeNames = TempFree;
 		} else {
                         if (LastUsed >= StackSize)
 				if (!iEnlargeStack())
@@ -83,7 +89,7 @@ void ILAPIENTRY ilGenImages(ILsizei Num, ILuint *Images)
 
 ILuint ILAPIENTRY ilGenImage()
 {
-    ILuint i;
+    ILuint i = 0;
     ilGenImages(1,&i);
     return i;
 }
@@ -210,7 +216,7 @@ ILAPI void ILAPIENTRY ilCloseImage(ILimage *Image)
 		Image->Data = NULL;
 	}
 
-	if (Image->Pal.Palette != NULL && Image->Pal.PalSize > 0 && Image->Pal.PalType != IL_PAL_NONE) {
+	if (Image->Pal.Palette != NULL) {
 		ifree(Image->Pal.Palette);
 		Image->Pal.Palette = NULL;
 	}
@@ -222,7 +228,7 @@ ILAPI void ILAPIENTRY ilCloseImage(ILimage *Image)
 
 	if (Image->Faces != NULL) {
 		ilCloseImage(Image->Faces);
-		Image->Mipmaps = NULL;
+		Image->Faces = NULL;
 	}
 
 	if (Image->Mipmaps != NULL) {
@@ -235,18 +241,18 @@ ILAPI void ILAPIENTRY ilCloseImage(ILimage *Image)
 		Image->Layers = NULL;
 	}
 
-	if (Image->AnimList != NULL && Image->AnimSize != 0) {
+	if (Image->AnimList != NULL) {
 		ifree(Image->AnimList);
 		Image->AnimList = NULL;
 	}
 
-	if (Image->Profile != NULL && Image->ProfileSize != 0) {
+	if (Image->Profile != NULL) {
 		ifree(Image->Profile);
 		Image->Profile = NULL;
 		Image->ProfileSize = 0;
 	}
 
-	if (Image->DxtcData != NULL && Image->DxtcFormat != IL_DXT_NO_COMP) {
+	if (Image->DxtcData != NULL) {
 		ifree(Image->DxtcData);
 		Image->DxtcData = NULL;
 		Image->DxtcFormat = IL_DXT_NO_COMP;
@@ -457,8 +463,8 @@ ILboolean ILAPIENTRY ilActiveLayer(ILuint Number)
 
 ILuint ILAPIENTRY ilCreateSubImage(ILenum Type, ILuint Num)
 {
-	ILimage	*SubImage;
-	ILuint	Count ;  // Create one before we go in the loop.
+	ILimage	**SubImage;
+	ILuint	Count;
 
 	if (iCurImage == NULL) {
 		ilSetError(IL_ILLEGAL_OPERATION);
@@ -471,24 +477,15 @@ ILuint ILAPIENTRY ilCreateSubImage(ILenum Type, ILuint Num)
 	switch (Type)
 	{
 		case IL_SUB_NEXT:
-			if (iCurImage->Next)
-				ilCloseImage(iCurImage->Next);
-			iCurImage->Next = ilNewImage(1, 1, 1, 1, 1);
-			SubImage = iCurImage->Next;
+			SubImage = &iCurImage->Next;
 			break;
 
 		case IL_SUB_MIPMAP:
-			if (iCurImage->Mipmaps)
-				ilCloseImage(iCurImage->Mipmaps);
-			iCurImage->Mipmaps = ilNewImage(1, 1, 1, 1, 1);
-			SubImage = iCurImage->Mipmaps;
+			SubImage = &iCurImage->Mipmaps;
 			break;
 
 		case IL_SUB_LAYER:
-			if (iCurImage->Layers)
-				ilCloseImage(iCurImage->Layers);
-			iCurImage->Layers = ilNewImage(1, 1, 1, 1, 1);
-			SubImage = iCurImage->Layers;
+			SubImage = &iCurImage->Layers;
 			break;
 
 		default:
@@ -496,15 +493,28 @@ ILuint ILAPIENTRY ilCreateSubImage(ILenum Type, ILuint Num)
 			return IL_FALSE;
 	}
 
-	if (SubImage == NULL) {
-		return 0;
+	if (*SubImage) {
+		ilCloseImage(*SubImage);
+		*SubImage = NULL;
 	}
 
-	for (Count = 1; Count < Num; Count++) {
-		SubImage->Next = ilNewImage(1, 1, 1, 1, 1);
-		SubImage = SubImage->Next;
-		if (SubImage == NULL)
+	// Mipmaps hang on mipmaps and layers on layers, as ilActiveMipmap() and ilActiveLayer() follow them.
+	for (Count = 0; Count < Num; Count++) {
+		*SubImage = ilNewImage(1, 1, 1, 1, 1);
+		if (*SubImage == NULL)
 			return Count;
+		switch (Type)
+		{
+			case IL_SUB_NEXT:
+				SubImage = &(*SubImage)->Next;
+				break;
+			case IL_SUB_MIPMAP:
+				SubImage = &(*SubImage)->Mipmaps;
+				break;
+			case IL_SUB_LAYER:
+				SubImage = &(*SubImage)->Layers;
+				break;
+		}
 	}
 
 	return Count;
@@ -580,6 +590,8 @@ void ilShutDownInternal()
 // Internal function to enlarge the image stack by I_STACK_INCREMENT members.
 ILboolean iEnlargeStack()
 {
+	ILimage	**NewStack;
+
 	// 02-05-2001:  Moved from ilGenImages().
 	// Puts the cleanup function on the exit handler once.
 	if (!OnExit) {
@@ -592,9 +604,11 @@ ILboolean iEnlargeStack()
 		OnExit = IL_TRUE;
 	}
 
-	if (!(ImageStack = (ILimage**)ilRecalloc(ImageStack, StackSize * sizeof(ILimage*), (StackSize + I_STACK_INCREMENT) * sizeof(ILimage*)))) {
+	// The old stack stays if there is no memory for a larger one.
+	if (!(NewStack = (ILimage**)ilRecalloc(ImageStack, StackSize * sizeof(ILimage*), (StackSize + I_STACK_INCREMENT) * sizeof(ILimage*)))) {
 		return IL_FALSE;
 	}
+	ImageStack = NewStack;
 	StackSize += I_STACK_INCREMENT;
 	return IL_TRUE;
 }
@@ -666,6 +680,8 @@ void ILAPIENTRY ilShutDown()
 	ImageStack = NULL;
 	LastUsed = 0;
 	StackSize = 0;
+	iCurImage = NULL;
+	CurName = 0;
 	IsInit = IL_FALSE;
 	return;
 }
-- 
2.43.0


From 65f6947b8ce7799383709250df91e73366ad7ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:43 +0000
Subject: [PATCH 017/115] fix: ilCopyPixels and ilSetPixels outside of the
 image, with negative offsets, depth or another origin

---
 DevIL/src-IL/src/il_manip.cpp | 146 +++++++++++++++-------------------
 1 file changed, 64 insertions(+), 82 deletions(-)

diff --git a/DevIL/src-IL/src/il_manip.cpp b/DevIL/src-IL/src/il_manip.cpp
index 79acc99..83f6a26 100644
--- a/DevIL/src-IL/src/il_manip.cpp
+++ b/DevIL/src-IL/src/il_manip.cpp
@@ -376,6 +376,21 @@ ILboolean ILAPIENTRY iMirror() {
 }
 
 
+// Clips the span [Off, Off + Size) to [0, Limit).  Skip is what lies before 0, Count what remains.
+static void iClipSpan(ILint *Off, ILuint Size, ILuint Limit, ILuint *Skip, ILint *Count)
+{
+	*Skip = 0;
+	if (*Off < 0) {
+		*Skip = 0 - (ILuint)*Off;
+		*Off = 0;
+	}
+	if (*Skip >= Size || (ILuint)*Off >= Limit)
+		*Count = 0;
+	else
+		*Count = (ILint)IL_MIN(Size - *Skip, Limit - (ILuint)*Off);
+}
+
+
 // Should we add type to the parameter list?
 // Copies a 1d block of pixels to the buffer pointed to by Data.
 ILboolean ilCopyPixels1D(ILuint XOff, ILuint Width, void *Data)
@@ -393,7 +408,10 @@ ILboolean ilCopyPixels1D(ILuint XOff, ILuint Width, void *Data)
 
 	PixBpp = iCurImage->Bpp * iCurImage->Bpc;
 
-	if (iCurImage->Width < XOff + Width) {
+	if (XOff >= iCurImage->Width) {
+		NewBps = 0;
+	}
+	else if (Width > iCurImage->Width - XOff) {
 		NewBps = (iCurImage->Width - XOff) * PixBpp;
 	}
 	else {
@@ -430,15 +448,17 @@ ILboolean ilCopyPixels2D(ILuint XOff, ILuint YOff, ILuint Width, ILuint Height,
 
 	PixBpp = iCurImage->Bpp * iCurImage->Bpc;
 
-	if (iCurImage->Width < XOff + Width)
+	if (XOff >= iCurImage->Width)
+		NewBps = 0;
+	else if (Width > iCurImage->Width - XOff)
 		NewBps = (iCurImage->Width - XOff) * PixBpp;
 	else
 		NewBps = Width * PixBpp;
 
-	if (iCurImage->Height < YOff + Height)
-		NewHeight = iCurImage->Height - YOff;
+	if (YOff >= iCurImage->Height)
+		NewHeight = 0;
 	else
-		NewHeight = Height;
+		NewHeight = IL_MIN(Height, iCurImage->Height - YOff);
 
 	DataBps = Width * PixBpp;
 	NewXOff = XOff * PixBpp;
@@ -475,23 +495,25 @@ ILboolean ilCopyPixels3D(ILuint XOff, ILuint YOff, ILuint ZOff, ILuint Width, IL
 
 	PixBpp = iCurImage->Bpp * iCurImage->Bpc;
 
-	if (iCurImage->Width < XOff + Width)
+	if (XOff >= iCurImage->Width)
+		NewBps = 0;
+	else if (Width > iCurImage->Width - XOff)
 		NewBps = (iCurImage->Width - XOff) * PixBpp;
 	else
 		NewBps = Width * PixBpp;
 
-	if (iCurImage->Height < YOff + Height)
-		NewH = iCurImage->Height - YOff;
+	if (YOff >= iCurImage->Height)
+		NewH = 0;
 	else
-		NewH = Height;
+		NewH = IL_MIN(Height, iCurImage->Height - YOff);
 
-	if (iCurImage->Depth < ZOff + Depth)
-		NewD = iCurImage->Depth - ZOff;
+	if (ZOff >= iCurImage->Depth)
+		NewD = 0;
 	else
-		NewD = Depth;
+		NewD = IL_MIN(Depth, iCurImage->Depth - ZOff);
 
 	DataBps = Width * PixBpp;
-	NewSizePlane = NewBps * NewH;
+	NewSizePlane = DataBps * Height;
 
 	NewXOff = XOff * PixBpp;
 
@@ -524,6 +546,11 @@ ILuint ILAPIENTRY ilCopyPixels(ILuint XOff, ILuint YOff, ILuint ZOff, ILuint Wid
 		ilSetError(IL_ILLEGAL_OPERATION);
 		return 0;
 	}
+	if (Width != 0 && Height != 0 && Depth != 0
+		&& ((ILuint64)Width * Height > UINT_MAX || (ILuint64)Width * Height * Depth > UINT_MAX / 32)) {
+		ilSetError(IL_INVALID_PARAM);
+		return 0;
+	}
 	DestSize = Width * Height * Depth * ilGetBppFormat(Format) * ilGetBpcType(Type);
 	if (DestSize == 0) {
 		return DestSize;
@@ -542,14 +569,16 @@ ILuint ILAPIENTRY ilCopyPixels(ILuint XOff, ILuint YOff, ILuint ZOff, ILuint Wid
 		if (TempBuff == NULL) {
 			return 0;
 		}
+		// What lies outside of the image is converted, too.
+		memset(TempBuff, 0, SrcSize);
 	}
 
-	if (YOff + Height <= 1) {
+	if (YOff == 0 && Height == 1 && ZOff == 0 && Depth == 1) {
 		if (!ilCopyPixels1D(XOff, Width, TempBuff)) {
 			goto failed;
 		}
 	}
-	else if (ZOff + Depth <= 1) {
+	else if (ZOff == 0 && Depth == 1) {
 		if (!ilCopyPixels2D(XOff, YOff, Width, Height, TempBuff)) {
 			goto failed;
 		}
@@ -600,19 +629,7 @@ ILboolean ilSetPixels1D(ILint XOff, ILuint Width, void *Data)
 
 	PixBpp = iCurImage->Bpp * iCurImage->Bpc;
 
-	if (XOff < 0) {
-		SkipX = abs(XOff);
-		XOff = 0;
-	}
-
-	if (iCurImage->Width < XOff + Width) {
-		NewWidth = iCurImage->Width - XOff;
-	}
-	else {
-		NewWidth = Width;
-	}
-
-	NewWidth -= SkipX;
+	iClipSpan(&XOff, Width, iCurImage->Width, &SkipX, &NewWidth);
 
 	for (x = 0; x < NewWidth; x++) {
 		for (c = 0; c < PixBpp; c++) {
@@ -621,6 +638,8 @@ ILboolean ilSetPixels1D(ILint XOff, ILuint Width, void *Data)
 	}
 
 	if (TempData != iCurImage->Data) {
+		// The image keeps its own origin.
+		iFlipBuffer(TempData, iCurImage->Depth, iCurImage->Bps, iCurImage->Height);
 		ifree(iCurImage->Data);
 		iCurImage->Data = TempData;
 	}
@@ -645,29 +664,10 @@ ILboolean ilSetPixels2D(ILint XOff, ILint YOff, ILuint Width, ILuint Height, voi
 
 	PixBpp = iCurImage->Bpp * iCurImage->Bpc;
 
-	if (XOff < 0) {
-		SkipX = abs(XOff);
-		XOff = 0;
-	}
-	if (YOff < 0) {
-		SkipY = abs(YOff);
-		YOff = 0;
-	}
-
-	if (iCurImage->Width < XOff + Width)
-		NewWidth = iCurImage->Width - XOff;
-	else
-		NewWidth = Width;
+	iClipSpan(&XOff, Width, iCurImage->Width, &SkipX, &NewWidth);
+	iClipSpan(&YOff, Height, iCurImage->Height, &SkipY, &NewHeight);
 	NewBps = Width * PixBpp;
 
-	if (iCurImage->Height < YOff + Height)
-		NewHeight = iCurImage->Height - YOff;
-	else
-		NewHeight = Height;
-
-	NewWidth -= SkipX;
-	NewHeight -= SkipY;
-
 	for (y = 0; y < NewHeight; y++) {
 		for (x = 0; x < NewWidth; x++) {
 			for (c = 0; c < PixBpp; c++) {
@@ -678,6 +678,8 @@ ILboolean ilSetPixels2D(ILint XOff, ILint YOff, ILuint Width, ILuint Height, voi
 	}
 
 	if (TempData != iCurImage->Data) {
+		// The image keeps its own origin.
+		iFlipBuffer(TempData, iCurImage->Depth, iCurImage->Bps, iCurImage->Height);
 		ifree(iCurImage->Data);
 		iCurImage->Data = TempData;
 	}
@@ -702,40 +704,12 @@ ILboolean ilSetPixels3D(ILint XOff, ILint YOff, ILint ZOff, ILuint Width, ILuint
 
 	PixBpp = iCurImage->Bpp * iCurImage->Bpc;
 
-	if (XOff < 0) {
-		SkipX = abs(XOff);
-		XOff = 0;
-	}
-	if (YOff < 0) {
-		SkipY = abs(YOff);
-		YOff = 0;
-	}
-	if (ZOff < 0) {
-		SkipZ = abs(ZOff);
-		ZOff = 0;
-	}
-
-	if (iCurImage->Width < XOff + Width)
-		NewW = iCurImage->Width - XOff;
-	else
-		NewW = Width;
+	iClipSpan(&XOff, Width, iCurImage->Width, &SkipX, &NewW);
+	iClipSpan(&YOff, Height, iCurImage->Height, &SkipY, &NewH);
+	iClipSpan(&ZOff, Depth, iCurImage->Depth, &SkipZ, &NewD);
 	NewBps = Width * PixBpp;
-
-	if (iCurImage->Height < YOff + Height)
-		NewH = iCurImage->Height - YOff;
-	else
-		NewH = Height;
-
-	if (iCurImage->Depth < ZOff + Depth)
-		NewD = iCurImage->Depth - ZOff;
-	else
-		NewD = Depth;
 	NewSizePlane = NewBps * Height;
 
-	NewW -= SkipX;
-	NewH -= SkipY;
-	NewD -= SkipZ;
-
 	for (z = 0; z < NewD; z++) {
 		for (y = 0; y < NewH; y++) {
 			for (x = 0; x < NewW; x++) {
@@ -748,6 +722,8 @@ ILboolean ilSetPixels3D(ILint XOff, ILint YOff, ILint ZOff, ILuint Width, ILuint
 	}
 
 	if (TempData != iCurImage->Data) {
+		// The image keeps its own origin.
+		iFlipBuffer(TempData, iCurImage->Depth, iCurImage->Bps, iCurImage->Height);
 		ifree(iCurImage->Data);
 		iCurImage->Data = TempData;
 	}
@@ -768,6 +744,12 @@ void ILAPIENTRY ilSetPixels(ILint XOff, ILint YOff, ILint ZOff, ILuint Width, IL
 		ilSetError(IL_INVALID_PARAM);
 		return;
 	}
+	if (Width == 0 || Height == 0 || Depth == 0)
+		return;
+	if ((ILuint64)Width * Height > UINT_MAX || (ILuint64)Width * Height * Depth > UINT_MAX / 32) {
+		ilSetError(IL_INVALID_PARAM);
+		return;
+	}
 
 	if (Format == iCurImage->Format && Type == iCurImage->Type) {
 		Converted = (void*)Data;
@@ -778,10 +760,10 @@ void ILAPIENTRY ilSetPixels(ILint XOff, ILint YOff, ILint ZOff, ILuint Width, IL
 			return;
 	}
 
-	if (YOff + Height <= 1) {
+	if (YOff == 0 && Height == 1 && ZOff == 0 && Depth == 1) {
 		ilSetPixels1D(XOff, Width, Converted);
 	}
-	else if (ZOff + Depth <= 1) {
+	else if (ZOff == 0 && Depth == 1) {
 		ilSetPixels2D(XOff, YOff, Width, Height, Converted);
 	}
 	else {
-- 
2.43.0


From aac2e6351a68533b4c193b5ba2dfabc0aa3995d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:17 +0000
Subject: [PATCH 018/115] fix: the error stack kept a stale entry after an
 overflow

---
 DevIL/src-IL/src/il_error.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DevIL/src-IL/src/il_error.cpp b/DevIL/src-IL/src/il_error.cpp
index 08796f6..159c7df 100644
--- a/DevIL/src-IL/src/il_error.cpp
+++ b/DevIL/src-IL/src/il_error.cpp
@@ -29,7 +29,7 @@ ILAPI void ILAPIENTRY ilSetError(ILenum Error)
 
 	ilErrorPlace++;
 	if (ilErrorPlace >= IL_ERROR_STACK_SIZE) {
-		for (i = 0; i < IL_ERROR_STACK_SIZE - 2; i++) {
+		for (i = 0; i < IL_ERROR_STACK_SIZE - 1; i++) {
 			ilErrorNum[i] = ilErrorNum[i+1];
 		}
 		ilErrorPlace = IL_ERROR_STACK_SIZE - 1;
-- 
2.43.0


From bfd615da707dc33fec4aa3aff9c5c2051d504991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:17 +0000
Subject: [PATCH 019/115] fix: pushed states lost or leaked strings, invalid
 values were accepted, hints and errors dropped by a push

---
 DevIL/src-IL/include/il_internal.h |   1 +
 DevIL/src-IL/src/il_stack.cpp      |   6 ++
 DevIL/src-IL/src/il_states.cpp     | 159 ++++++++++++++++-------------
 3 files changed, 95 insertions(+), 71 deletions(-)

diff --git a/DevIL/src-IL/include/il_internal.h b/DevIL/src-IL/include/il_internal.h
index 4ea71a4..babb7c7 100644
--- a/DevIL/src-IL/include/il_internal.h
+++ b/DevIL/src-IL/include/il_internal.h
@@ -179,6 +179,7 @@ ILuint		ilStrLen(ILconst_string Str);
 ILuint		ilCharStrLen(const char *Str);
 // Miscellaneous functions
 void					ilDefaultStates(void);
+void					iResetStates(void);
 ILenum					iGetHint(ILenum Target);
 ILint					iGetInt(ILenum Mode);
 void					ilRemoveRegistered(void);
diff --git a/DevIL/src-IL/src/il_stack.cpp b/DevIL/src-IL/src/il_stack.cpp
index 684c03c..47b247f 100644
--- a/DevIL/src-IL/src/il_stack.cpp
+++ b/DevIL/src-IL/src/il_stack.cpp
@@ -631,7 +631,11 @@ void ILAPIENTRY ilInit()
 	
 	//ilSetMemory(NULL, NULL);  Now useless 3/4/2006 (due to modification in il_alloc.c)
 	ilSetError(IL_NO_ERROR);
+	iResetStates();
 	ilDefaultStates();  // Set states to their defaults.
+	ilHint(IL_MEM_SPEED_HINT, IL_FASTEST);
+	ilHint(IL_COMPRESSION_HINT, IL_USE_COMPRESSION);
+	while (ilGetError() != IL_NO_ERROR);
 	// Sets default file-reading callbacks.
 	ilResetRead();
 	ilResetWrite();
@@ -675,6 +679,8 @@ void ILAPIENTRY ilShutDown()
 			ilCloseImage(ImageStack[i]);
 	}
 
+	iResetStates();
+
 	if (ImageStack)
 		ifree(ImageStack);
 	ImageStack = NULL;
diff --git a/DevIL/src-IL/src/il_states.cpp b/DevIL/src-IL/src/il_states.cpp
index b242c7f..f04f025 100644
--- a/DevIL/src-IL/src/il_states.cpp
+++ b/DevIL/src-IL/src/il_states.cpp
@@ -40,6 +40,55 @@ char* _ilSaveExt		= (char*)"" IL_BMP_EXT IL_CHEAD_EXT IL_DDS_EXT IL_EXR_EXT
 									IL_WBMP_EXT;
 
 
+// Copies a string into memory that ifree() releases.
+static char *iCopyString(const char *String)
+{
+	char *Copy;
+
+	if (String == NULL)
+		return NULL;
+	Copy = (char*)ialloc(ilCharStrLen(String) + 1);
+	if (Copy != NULL)
+		memcpy(Copy, String, ilCharStrLen(String) + 1);
+	return Copy;
+}
+
+
+// Frees the strings of the current states.
+static void iFreeStateStrings()
+{
+	char **Strings[] = {
+		&ilStates[ilCurrentPos].ilTgaId,
+		&ilStates[ilCurrentPos].ilTgaAuthName,
+		&ilStates[ilCurrentPos].ilTgaAuthComment,
+		&ilStates[ilCurrentPos].ilPngAuthName,
+		&ilStates[ilCurrentPos].ilPngTitle,
+		&ilStates[ilCurrentPos].ilPngDescription,
+		&ilStates[ilCurrentPos].ilTifDescription,
+		&ilStates[ilCurrentPos].ilTifHostComputer,
+		&ilStates[ilCurrentPos].ilTifDocumentName,
+		&ilStates[ilCurrentPos].ilTifAuthName,
+		&ilStates[ilCurrentPos].ilCHeader
+	};
+	ILuint i;
+
+	for (i = 0; i < sizeof(Strings) / sizeof(Strings[0]); i++) {
+		if (*Strings[i] != NULL)
+			ifree(*Strings[i]);
+		*Strings[i] = NULL;
+	}
+}
+
+
+// Forgets everything that was pushed and the strings of all levels.
+void iResetStates()
+{
+	for (; ilCurrentPos > 0; ilCurrentPos--)
+		iFreeStateStrings();
+	iFreeStateStrings();
+}
+
+
 //! Set all states to their defaults.
 void ilDefaultStates()
 {
@@ -70,19 +119,7 @@ void ilDefaultStates()
 	ilStates[ilCurrentPos].ilPngAlphaIndex = -1;
 	ilStates[ilCurrentPos].ilVtfCompression = IL_DXT_NO_COMP;
 
-	ilStates[ilCurrentPos].ilTgaId = NULL;
-	ilStates[ilCurrentPos].ilTgaAuthName = NULL;
-	ilStates[ilCurrentPos].ilTgaAuthComment = NULL;
-	ilStates[ilCurrentPos].ilPngAuthName = NULL;
-	ilStates[ilCurrentPos].ilPngTitle = NULL;
-	ilStates[ilCurrentPos].ilPngDescription = NULL;
-
-	//2003-09-01: added tiff strings
-	ilStates[ilCurrentPos].ilTifDescription = NULL;
-	ilStates[ilCurrentPos].ilTifHostComputer = NULL;
-	ilStates[ilCurrentPos].ilTifDocumentName = NULL;
-	ilStates[ilCurrentPos].ilTifAuthName = NULL;
-	ilStates[ilCurrentPos].ilCHeader = NULL;
+	iFreeStateStrings();
 
 	ilStates[ilCurrentPos].ilQuantMode = IL_WU_QUANT;
 	ilStates[ilCurrentPos].ilNeuSample = 15;
@@ -95,11 +132,6 @@ void ilDefaultStates()
 
 
 
-	ilHints.MemVsSpeedHint = IL_FASTEST;
-	ilHints.CompressHint = IL_USE_COMPRESSION;
-
-	while (ilGetError() != IL_NO_ERROR);
-
 	return;
 }
 
@@ -466,6 +498,7 @@ void ILAPIENTRY ilGetIntegerv(ILenum Mode, ILint *Param)
 		case IL_ACTIVE_IMAGE:
 		case IL_ACTIVE_MIPMAP:
 		case IL_ACTIVE_LAYER:
+		case IL_ACTIVE_FACE:
 			*Param = iGetActiveNum(Mode);
 			break;
 
@@ -656,16 +689,22 @@ void ILAPIENTRY iGetIntegervImage(ILimage *Image, ILenum Mode, ILint *Param)
              {
                   case IL_PAL_RGB24:
                       *Param = IL_RGB;
+                      break;
                   case IL_PAL_RGB32:
                       *Param = IL_RGBA; // Not sure
+                      break;
                   case IL_PAL_RGBA32:
                       *Param = IL_RGBA;
+                      break;
                   case IL_PAL_BGR24:
                       *Param = IL_BGR;
+                      break;
                   case IL_PAL_BGR32:
                       *Param = IL_BGRA; // Not sure
+                      break;
                   case IL_PAL_BGRA32:
                       *Param = IL_BGRA;
+                      break;
              }
              break;
         default:
@@ -819,47 +858,24 @@ void ILAPIENTRY ilPushAttrib(ILuint Bits)
 
 		ilStates[ilCurrentPos].ilPngAlphaIndex = ilStates[ilCurrentPos-1].ilPngAlphaIndex;
 
-		// Strings
-		if (ilStates[ilCurrentPos].ilTgaId)
-			ifree(ilStates[ilCurrentPos].ilTgaId);
-		if (ilStates[ilCurrentPos].ilTgaAuthName)
-			ifree(ilStates[ilCurrentPos].ilTgaAuthName);
-		if (ilStates[ilCurrentPos].ilTgaAuthComment)
-			ifree(ilStates[ilCurrentPos].ilTgaAuthComment);
-		if (ilStates[ilCurrentPos].ilPngAuthName)
-			ifree(ilStates[ilCurrentPos].ilPngAuthName);
-		if (ilStates[ilCurrentPos].ilPngTitle)
-			ifree(ilStates[ilCurrentPos].ilPngTitle);
-		if (ilStates[ilCurrentPos].ilPngDescription)
-			ifree(ilStates[ilCurrentPos].ilPngDescription);
+		ilStates[ilCurrentPos].ilJpgProgressive = ilStates[ilCurrentPos-1].ilJpgProgressive;
+		ilStates[ilCurrentPos].ilVtfCompression = ilStates[ilCurrentPos-1].ilVtfCompression;
 
-		//2003-09-01: added tif strings
-		if (ilStates[ilCurrentPos].ilTifDescription)
-			ifree(ilStates[ilCurrentPos].ilTifDescription);
-		if (ilStates[ilCurrentPos].ilTifHostComputer)
-			ifree(ilStates[ilCurrentPos].ilTifHostComputer);
-		if (ilStates[ilCurrentPos].ilTifDocumentName)
-			ifree(ilStates[ilCurrentPos].ilTifDocumentName);
-		if (ilStates[ilCurrentPos].ilTifAuthName)
-			ifree(ilStates[ilCurrentPos].ilTifAuthName);
-
-		if (ilStates[ilCurrentPos].ilCHeader)
-			ifree(ilStates[ilCurrentPos].ilCHeader);
-
-		ilStates[ilCurrentPos].ilTgaId = strdup(ilStates[ilCurrentPos-1].ilTgaId);
-		ilStates[ilCurrentPos].ilTgaAuthName = strdup(ilStates[ilCurrentPos-1].ilTgaAuthName);
-		ilStates[ilCurrentPos].ilTgaAuthComment = strdup(ilStates[ilCurrentPos-1].ilTgaAuthComment);
-		ilStates[ilCurrentPos].ilPngAuthName = strdup(ilStates[ilCurrentPos-1].ilPngAuthName);
-		ilStates[ilCurrentPos].ilPngTitle = strdup(ilStates[ilCurrentPos-1].ilPngTitle);
-		ilStates[ilCurrentPos].ilPngDescription = strdup(ilStates[ilCurrentPos-1].ilPngDescription);
+		// Strings
+		ilStates[ilCurrentPos].ilTgaId = iCopyString(ilStates[ilCurrentPos-1].ilTgaId);
+		ilStates[ilCurrentPos].ilTgaAuthName = iCopyString(ilStates[ilCurrentPos-1].ilTgaAuthName);
+		ilStates[ilCurrentPos].ilTgaAuthComment = iCopyString(ilStates[ilCurrentPos-1].ilTgaAuthComment);
+		ilStates[ilCurrentPos].ilPngAuthName = iCopyString(ilStates[ilCurrentPos-1].ilPngAuthName);
+		ilStates[ilCurrentPos].ilPngTitle = iCopyString(ilStates[ilCurrentPos-1].ilPngTitle);
+		ilStates[ilCurrentPos].ilPngDescription = iCopyString(ilStates[ilCurrentPos-1].ilPngDescription);
 
 		//2003-09-01: added tif strings
-		ilStates[ilCurrentPos].ilTifDescription = strdup(ilStates[ilCurrentPos-1].ilTifDescription);
-		ilStates[ilCurrentPos].ilTifHostComputer = strdup(ilStates[ilCurrentPos-1].ilTifHostComputer);
-		ilStates[ilCurrentPos].ilTifDocumentName = strdup(ilStates[ilCurrentPos-1].ilTifDocumentName);
-		ilStates[ilCurrentPos].ilTifAuthName = strdup(ilStates[ilCurrentPos-1].ilTifAuthName);
+		ilStates[ilCurrentPos].ilTifDescription = iCopyString(ilStates[ilCurrentPos-1].ilTifDescription);
+		ilStates[ilCurrentPos].ilTifHostComputer = iCopyString(ilStates[ilCurrentPos-1].ilTifHostComputer);
+		ilStates[ilCurrentPos].ilTifDocumentName = iCopyString(ilStates[ilCurrentPos-1].ilTifDocumentName);
+		ilStates[ilCurrentPos].ilTifAuthName = iCopyString(ilStates[ilCurrentPos-1].ilTifAuthName);
 
-		ilStates[ilCurrentPos].ilCHeader = strdup(ilStates[ilCurrentPos-1].ilCHeader);
+		ilStates[ilCurrentPos].ilCHeader = iCopyString(ilStates[ilCurrentPos-1].ilCHeader);
 	}
 
 	return;
@@ -878,6 +894,7 @@ void ILAPIENTRY ilPopAttrib()
 	}
 
 	// Should we check here to see if ilCurrentPos is too large?
+	iFreeStateStrings();
 	ilCurrentPos--;
 
 	return;
@@ -962,60 +979,60 @@ void ILAPIENTRY ilSetString(ILenum Mode, const char *String)
 		case IL_TGA_ID_STRING:
 			if (ilStates[ilCurrentPos].ilTgaId)
 				ifree(ilStates[ilCurrentPos].ilTgaId);
-			ilStates[ilCurrentPos].ilTgaId = strdup(String);
+			ilStates[ilCurrentPos].ilTgaId = iCopyString(String);
 			break;
 		case IL_TGA_AUTHNAME_STRING:
 			if (ilStates[ilCurrentPos].ilTgaAuthName)
 				ifree(ilStates[ilCurrentPos].ilTgaAuthName);
-			ilStates[ilCurrentPos].ilTgaAuthName = strdup(String);
+			ilStates[ilCurrentPos].ilTgaAuthName = iCopyString(String);
 			break;
 		case IL_TGA_AUTHCOMMENT_STRING:
 			if (ilStates[ilCurrentPos].ilTgaAuthComment)
 				ifree(ilStates[ilCurrentPos].ilTgaAuthComment);
-			ilStates[ilCurrentPos].ilTgaAuthComment = strdup(String);
+			ilStates[ilCurrentPos].ilTgaAuthComment = iCopyString(String);
 			break;
 		case IL_PNG_AUTHNAME_STRING:
 			if (ilStates[ilCurrentPos].ilPngAuthName)
 				ifree(ilStates[ilCurrentPos].ilPngAuthName);
-			ilStates[ilCurrentPos].ilPngAuthName = strdup(String);
+			ilStates[ilCurrentPos].ilPngAuthName = iCopyString(String);
 			break;
 		case IL_PNG_TITLE_STRING:
 			if (ilStates[ilCurrentPos].ilPngTitle)
 				ifree(ilStates[ilCurrentPos].ilPngTitle);
-			ilStates[ilCurrentPos].ilPngTitle = strdup(String);
+			ilStates[ilCurrentPos].ilPngTitle = iCopyString(String);
 			break;
 		case IL_PNG_DESCRIPTION_STRING:
 			if (ilStates[ilCurrentPos].ilPngDescription)
 				ifree(ilStates[ilCurrentPos].ilPngDescription);
-			ilStates[ilCurrentPos].ilPngDescription = strdup(String);
+			ilStates[ilCurrentPos].ilPngDescription = iCopyString(String);
 			break;
 
 		//2003-09-01: added tif strings
 		case IL_TIF_DESCRIPTION_STRING:
 			if (ilStates[ilCurrentPos].ilTifDescription)
 				ifree(ilStates[ilCurrentPos].ilTifDescription);
-			ilStates[ilCurrentPos].ilTifDescription = strdup(String);
+			ilStates[ilCurrentPos].ilTifDescription = iCopyString(String);
 			break;
 		case IL_TIF_HOSTCOMPUTER_STRING:
 			if (ilStates[ilCurrentPos].ilTifHostComputer)
 				ifree(ilStates[ilCurrentPos].ilTifHostComputer);
-			ilStates[ilCurrentPos].ilTifHostComputer = strdup(String);
+			ilStates[ilCurrentPos].ilTifHostComputer = iCopyString(String);
 			break;
 		case IL_TIF_DOCUMENTNAME_STRING:
 						if (ilStates[ilCurrentPos].ilTifDocumentName)
 				ifree(ilStates[ilCurrentPos].ilTifDocumentName);
-			ilStates[ilCurrentPos].ilTifDocumentName = strdup(String);
+			ilStates[ilCurrentPos].ilTifDocumentName = iCopyString(String);
 			break;
 		case IL_TIF_AUTHNAME_STRING:
 			if (ilStates[ilCurrentPos].ilTifAuthName)
 				ifree(ilStates[ilCurrentPos].ilTifAuthName);
-			ilStates[ilCurrentPos].ilTifAuthName = strdup(String);
+			ilStates[ilCurrentPos].ilTifAuthName = iCopyString(String);
 			break;
 
 		case IL_CHEAD_HEADER_STRING:
 			if (ilStates[ilCurrentPos].ilCHeader)
 				ifree(ilStates[ilCurrentPos].ilCHeader);
-			ilStates[ilCurrentPos].ilCHeader = strdup(String);
+			ilStates[ilCurrentPos].ilCHeader = iCopyString(String);
 			break;
 
 		default:
@@ -1093,7 +1110,7 @@ void ILAPIENTRY ilSetInteger(ILenum Mode, ILint Param)
 				break;
 			}
 			iCurImage->CubeFlags = Param;
-			break;
+			return;
  
 		// Format specific values
 		case IL_BMP_RLE:
@@ -1103,7 +1120,7 @@ void ILAPIENTRY ilSetInteger(ILenum Mode, ILint Param)
 			}
 			break;
 		case IL_DXTC_FORMAT:
-			if (Param >= IL_DXT1 || Param <= IL_DXT5 || Param == IL_DXT1A) {
+			if ((Param >= IL_DXT1 && Param <= IL_DXT5) || Param == IL_3DC || Param == IL_RXGB || Param == IL_ATI1N || Param == IL_DXT1A) {
 				ilStates[ilCurrentPos].ilDxtcFormat = Param;
 				return;
 			}
@@ -1127,13 +1144,13 @@ void ILAPIENTRY ilSetInteger(ILenum Mode, ILint Param)
 			}
 			break;
 		case IL_PCD_PICNUM:
-			if (Param >= 0 || Param <= 2) {
+			if (Param >= 0 && Param <= 2) {
 				ilStates[ilCurrentPos].ilPcdPicNum = Param;
 				return;
 			}
 			break;
 		case IL_PNG_ALPHA_INDEX:
-			if (Param >= -1 || Param <= 255) {
+			if (Param >= -1 && Param <= 255) {
 				ilStates[ilCurrentPos].ilPngAlphaIndex=Param;
 				return;
 			}
@@ -1188,7 +1205,7 @@ ILint iGetInt(ILenum Mode)
 	err = ilGetError();
 	if (r == -1 && err == IL_INVALID_ENUM)
 		ilSetError(IL_INTERNAL_ERROR);
-	else
+	else if (err != IL_NO_ERROR)
 		ilSetError(err); //restore error
 
 	return r;
-- 
2.43.0


From 702d6be5952813f6a2ba2fe7e5cd3434c1c1a907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:03 +0000
Subject: [PATCH 020/115] fix: blit, overlay, copy, clone and clear: clipping,
 formats, sub-images, missing sources, palettes, leaks

---
 DevIL/src-IL/src/il_devil.cpp | 674 +++++++++++++++-------------------
 1 file changed, 288 insertions(+), 386 deletions(-)

diff --git a/DevIL/src-IL/src/il_devil.cpp b/DevIL/src-IL/src/il_devil.cpp
index 039381b..26f680a 100644
--- a/DevIL/src-IL/src/il_devil.cpp
+++ b/DevIL/src-IL/src/il_devil.cpp
@@ -377,271 +377,86 @@ void ILAPIENTRY ilClearColour(ILclampf Red, ILclampf Green, ILclampf Blue, ILcla
 
 ILAPI void ILAPIENTRY ilGetClear(void *Colours, ILenum Format, ILenum Type)
 {
-	ILubyte 	*BytePtr;
-	ILushort	*ShortPtr;
-	ILuint		*IntPtr;
-	ILfloat 	*FloatPtr;
-	ILdouble	*DblPtr;
-	
-	switch (Type)
+	ILdouble	Values[4];
+	ILuint		c, NumChans, FloatBits;
+	ILfloat		FloatValue;
+
+	switch (Format)
 	{
-		case IL_BYTE:
-		case IL_UNSIGNED_BYTE:
-			BytePtr = (ILubyte*)Colours;
-			switch (Format)
-			{
-				case IL_RGB:
-					BytePtr[0] = (ILubyte)(ClearRed * UCHAR_MAX);
-					BytePtr[1] = (ILubyte)(ClearGreen * UCHAR_MAX);
-					BytePtr[2] = (ILubyte)(ClearBlue * UCHAR_MAX);
-					break;
-					
-				case IL_RGBA:
-					BytePtr[0] = (ILubyte)(ClearRed * UCHAR_MAX);
-					BytePtr[1] = (ILubyte)(ClearGreen * UCHAR_MAX);
-					BytePtr[2] = (ILubyte)(ClearBlue * UCHAR_MAX);
-					BytePtr[3] = (ILubyte)(ClearAlpha * UCHAR_MAX);
-					break;
-					
-				case IL_BGR:
-					BytePtr[2] = (ILubyte)(ClearRed * UCHAR_MAX);
-					BytePtr[1] = (ILubyte)(ClearGreen * UCHAR_MAX);
-					BytePtr[0] = (ILubyte)(ClearBlue * UCHAR_MAX);
-					BytePtr[3] = (ILubyte)(ClearAlpha * UCHAR_MAX);
-					break;
-					
-				case IL_BGRA:
-					BytePtr[2] = (ILubyte)(ClearRed * UCHAR_MAX);
-					BytePtr[1] = (ILubyte)(ClearGreen * UCHAR_MAX);
-					BytePtr[0] = (ILubyte)(ClearBlue * UCHAR_MAX);
-					BytePtr[3] = (ILubyte)(ClearAlpha * UCHAR_MAX);
-					break;
-					
-				case IL_LUMINANCE:
-					BytePtr[0] = (ILubyte)(ClearAlpha * UCHAR_MAX);
-					break;
-					
-				case IL_LUMINANCE_ALPHA:
-					BytePtr[0] = (ILubyte)(ClearLum * UCHAR_MAX);
-					BytePtr[1] = (ILubyte)(ClearAlpha * UCHAR_MAX);
-					
-				case IL_COLOUR_INDEX:
-					BytePtr[0] = (ILubyte)(ClearAlpha * UCHAR_MAX);
-					break;
-					
-				default:
-					ilSetError(IL_INTERNAL_ERROR);
-					return;
-			}
+		case IL_RGB:
+		case IL_RGBA:
+		case IL_COLOUR_INDEX:  // The only entry of an RGBA palette
+			Values[0] = ClearRed;
+			Values[1] = ClearGreen;
+			Values[2] = ClearBlue;
+			Values[3] = ClearAlpha;
+			NumChans = (Format == IL_RGB) ? 3 : 4;
+			break;
+
+		case IL_BGR:
+		case IL_BGRA:
+			Values[0] = ClearBlue;
+			Values[1] = ClearGreen;
+			Values[2] = ClearRed;
+			Values[3] = ClearAlpha;
+			NumChans = (Format == IL_BGR) ? 3 : 4;
+			break;
+
+		case IL_LUMINANCE:
+		case IL_LUMINANCE_ALPHA:
+			Values[0] = ClearLum;
+			Values[1] = ClearAlpha;
+			NumChans = (Format == IL_LUMINANCE) ? 1 : 2;
+			break;
+
+		case IL_ALPHA:
+			Values[0] = ClearAlpha;
+			NumChans = 1;
+			break;
+
+		default:
+			ilSetError(IL_INTERNAL_ERROR);
+			return;
+	}
+
+	for (c = 0; c < NumChans; c++) {
+		switch (Type)
+		{
+			case IL_BYTE:
+			case IL_UNSIGNED_BYTE:
+				((ILubyte*)Colours)[c] = (ILubyte)(Values[c] * UCHAR_MAX);
 				break;
-			
-		case IL_SHORT:
-		case IL_UNSIGNED_SHORT:
-			ShortPtr = (ILushort*)Colours;
-			switch (Format)
-			{
-				case IL_RGB:
-					ShortPtr[0] = (ILushort)(ClearRed * USHRT_MAX);
-					ShortPtr[1] = (ILushort)(ClearGreen * USHRT_MAX);
-					ShortPtr[2] = (ILushort)(ClearBlue * USHRT_MAX);
-					break;
-					
-				case IL_RGBA:
-					ShortPtr[0] = (ILushort)(ClearRed * USHRT_MAX);
-					ShortPtr[1] = (ILushort)(ClearGreen * USHRT_MAX);
-					ShortPtr[2] = (ILushort)(ClearBlue * USHRT_MAX);
-					ShortPtr[3] = (ILushort)(ClearAlpha * USHRT_MAX);
-					break;
-					
-				case IL_BGR:
-					ShortPtr[2] = (ILushort)(ClearRed * USHRT_MAX);
-					ShortPtr[1] = (ILushort)(ClearGreen * USHRT_MAX);
-					ShortPtr[0] = (ILushort)(ClearBlue * USHRT_MAX);
-					ShortPtr[3] = (ILushort)(ClearAlpha * USHRT_MAX);
-					break;
-					
-				case IL_BGRA:
-					ShortPtr[2] = (ILushort)(ClearRed * USHRT_MAX);
-					ShortPtr[1] = (ILushort)(ClearGreen * USHRT_MAX);
-					ShortPtr[0] = (ILushort)(ClearBlue * USHRT_MAX);
-					ShortPtr[3] = (ILushort)(ClearAlpha * USHRT_MAX);
-					break;
-					
-				case IL_LUMINANCE:
-					ShortPtr[0] = (ILushort)(ClearAlpha * USHRT_MAX);
-					break;
-					
-				case IL_LUMINANCE_ALPHA:
-					ShortPtr[0] = (ILushort)(ClearLum * USHRT_MAX);
-					ShortPtr[1] = (ILushort)(ClearAlpha * USHRT_MAX);
-					break;
-					
-				case IL_COLOUR_INDEX:
-					ShortPtr[0] = (ILushort)(ClearAlpha * USHRT_MAX);
-					break;
-					
-				default:
-					ilSetError(IL_INTERNAL_ERROR);
-					return;
-			}
+
+			case IL_SHORT:
+			case IL_UNSIGNED_SHORT:
+				((ILushort*)Colours)[c] = (ILushort)(Values[c] * USHRT_MAX);
 				break;
-			
-		case IL_INT:
-		case IL_UNSIGNED_INT:
-			IntPtr = (ILuint*)Colours;
-			switch (Format)
-			{
-				case IL_RGB:
-					IntPtr[0] = (ILuint)(ClearRed * UINT_MAX);
-					IntPtr[1] = (ILuint)(ClearGreen * UINT_MAX);
-					IntPtr[2] = (ILuint)(ClearBlue * UINT_MAX);
-					break;
-					
-				case IL_RGBA:
-					IntPtr[0] = (ILuint)(ClearRed * UINT_MAX);
-					IntPtr[1] = (ILuint)(ClearGreen * UINT_MAX);
-					IntPtr[2] = (ILuint)(ClearBlue * UINT_MAX);
-					IntPtr[3] = (ILuint)(ClearAlpha * UINT_MAX);
-					break;
-					
-				case IL_BGR:
-					IntPtr[2] = (ILuint)(ClearRed * UINT_MAX);
-					IntPtr[1] = (ILuint)(ClearGreen * UINT_MAX);
-					IntPtr[0] = (ILuint)(ClearBlue * UINT_MAX);
-					IntPtr[3] = (ILuint)(ClearAlpha * UINT_MAX);
-					break;
-					
-				case IL_BGRA:
-					IntPtr[2] = (ILuint)(ClearRed * UINT_MAX);
-					IntPtr[1] = (ILuint)(ClearGreen * UINT_MAX);
-					IntPtr[0] = (ILuint)(ClearBlue * UINT_MAX);
-					IntPtr[3] = (ILuint)(ClearAlpha * UINT_MAX);
-					break;
-					
-				case IL_LUMINANCE:
-					IntPtr[0] = (ILuint)(ClearAlpha * UINT_MAX);
-					break;
-					
-				case IL_LUMINANCE_ALPHA:
-					IntPtr[0] = (ILuint)(ClearLum * UINT_MAX);
-					IntPtr[1] = (ILuint)(ClearAlpha * UINT_MAX);
-					break;
-					
-				case IL_COLOUR_INDEX:
-					IntPtr[0] = (ILuint)(ClearAlpha * UINT_MAX);
-					break;
-					
-				default:
-					ilSetError(IL_INTERNAL_ERROR);
-					return;
-			}
+
+			case IL_INT:
+			case IL_UNSIGNED_INT:
+				((ILuint*)Colours)[c] = (ILuint)(Values[c] * UINT_MAX);
 				break;
-			
-		case IL_FLOAT:
-			FloatPtr = (ILfloat*)Colours;
-			switch (Format)
-			{
-				case IL_RGB:
-					FloatPtr[0] = ClearRed;
-					FloatPtr[1] = ClearGreen;
-					FloatPtr[2] = ClearBlue;
-					break;
-					
-				case IL_RGBA:
-					FloatPtr[0] = ClearRed;
-					FloatPtr[1] = ClearGreen;
-					FloatPtr[2] = ClearBlue;
-					FloatPtr[3] = ClearAlpha;
-					break;
-					
-				case IL_BGR:
-					FloatPtr[2] = ClearRed;
-					FloatPtr[1] = ClearGreen;
-					FloatPtr[0] = ClearBlue;
-					FloatPtr[3] = ClearAlpha;
-					break;
-					
-				case IL_BGRA:
-					FloatPtr[2] = ClearRed;
-					FloatPtr[1] = ClearGreen;
-					FloatPtr[0] = ClearBlue;
-					FloatPtr[3] = ClearAlpha;
-					break;
-					
-				case IL_LUMINANCE:
-					FloatPtr[0] = ClearAlpha;
-					break;
-					
-				case IL_LUMINANCE_ALPHA:
-					FloatPtr[0] = ClearLum;
-					FloatPtr[0] = ClearAlpha;
-					break;
-					
-				case IL_COLOUR_INDEX:
-					FloatPtr[0] = ClearAlpha;
-					break;
-					
-				default:
-					ilSetError(IL_INTERNAL_ERROR);
-					return;
-			}
+
+			case IL_HALF:
+				FloatValue = (ILfloat)Values[c];
+				memcpy(&FloatBits, &FloatValue, sizeof(ILfloat));
+				((ILushort*)Colours)[c] = ilFloatToHalf(FloatBits);
 				break;
-			
-		case IL_DOUBLE:
-			DblPtr = (ILdouble*)Colours;
-			switch (Format)
-			{
-				case IL_RGB:
-					DblPtr[0] = ClearRed;
-					DblPtr[1] = ClearGreen;
-					DblPtr[2] = ClearBlue;
-					break;
-					
-				case IL_RGBA:
-					DblPtr[0] = ClearRed;
-					DblPtr[1] = ClearGreen;
-					DblPtr[2] = ClearBlue;
-					DblPtr[3] = ClearAlpha;
-					break;
-					
-				case IL_BGR:
-					DblPtr[2] = ClearRed;
-					DblPtr[1] = ClearGreen;
-					DblPtr[0] = ClearBlue;
-					DblPtr[3] = ClearAlpha;
-					break;
-					
-				case IL_BGRA:
-					DblPtr[2] = ClearRed;
-					DblPtr[1] = ClearGreen;
-					DblPtr[0] = ClearBlue;
-					DblPtr[3] = ClearAlpha;
-					break;
-					
-				case IL_LUMINANCE:
-					DblPtr[0] = ClearAlpha;
-					break;
-					
-				case IL_LUMINANCE_ALPHA:
-					DblPtr[0] = ClearLum;
-					DblPtr[1] = ClearAlpha;
-					break;
-					
-				case IL_COLOUR_INDEX:
-					DblPtr[0] = ClearAlpha;
-					break;
-					
-				default:
-					ilSetError(IL_INTERNAL_ERROR);
-					return;
-			}
+
+			case IL_FLOAT:
+				((ILfloat*)Colours)[c] = (ILfloat)Values[c];
 				break;
-			
-		default:
-			ilSetError(IL_INTERNAL_ERROR);
-			return;
+
+			case IL_DOUBLE:
+				((ILdouble*)Colours)[c] = Values[c];
+				break;
+
+			default:
+				ilSetError(IL_INTERNAL_ERROR);
+				return;
+		}
 	}
-	
+
 	return;
 }
 
@@ -686,6 +501,7 @@ ILAPI ILboolean ILAPIENTRY ilClearImage_(ILimage *Image)
 				
 			case IL_SHORT:
 			case IL_UNSIGNED_SHORT:
+			case IL_HALF:
 				ShortPtr = (ILushort*)Colours;
 				for (c = 0; c < NumBytes; c += Image->Bpc) {
 					for (i = c; i < Image->SizeOfData; i += NumBytes) {
@@ -724,22 +540,20 @@ ILAPI ILboolean ILAPIENTRY ilClearImage_(ILimage *Image)
 		}
 	}
 	else {
+		BytePtr = (ILubyte*)ialloc(4);
+		if (BytePtr == NULL) {
+			return IL_FALSE;
+		}
 		imemclear(Image->Data, Image->SizeOfData);
 		
 		if (Image->Pal.Palette)
 			ifree(Image->Pal.Palette);
-		Image->Pal.Palette = (ILubyte*)ialloc(4);
-		if (Image->Pal.Palette == NULL) {
-			return IL_FALSE;
-		}
+		Image->Pal.Palette = BytePtr;
 		
 		Image->Pal.PalType = IL_PAL_RGBA32;
 		Image->Pal.PalSize = 4;
 		
-		Image->Pal.Palette[0] = Colours[0] * UCHAR_MAX;
-		Image->Pal.Palette[1] = Colours[1] * UCHAR_MAX;
-		Image->Pal.Palette[2] = Colours[2] * UCHAR_MAX;
-		Image->Pal.Palette[3] = Colours[3] * UCHAR_MAX;
+		ilGetClear(Image->Pal.Palette, IL_COLOUR_INDEX, IL_UNSIGNED_BYTE);
 	}
 	
 	return IL_TRUE;
@@ -751,15 +565,112 @@ ILboolean ILAPIENTRY ilOverlayImage(ILuint Source, ILint XCoord, ILint YCoord, I
 {
 	ILuint	Width, Height, Depth;
 	ILuint	Dest;
+	ILimage	*DestImage = iCurImage;
 	
+	if (iCurImage == NULL) {
+		ilSetError(IL_ILLEGAL_OPERATION);
+		return IL_FALSE;
+	}
+	if (Source != 0 && !ilIsImage(Source)) {
+		ilSetError(IL_INVALID_PARAM);
+		return IL_FALSE;
+	}
+
 	Dest = ilGetCurName();
 	ilBindImage(Source);
 	Width = iCurImage->Width;  Height = iCurImage->Height;  Depth = iCurImage->Depth;
 	ilBindImage(Dest);
+	iCurImage = DestImage;  // Could be a subimage
 
 	return ilBlit(Source, XCoord, YCoord, ZCoord, 0, 0, 0, Width, Height, Depth);
 }
 
+// The value of a channel that is stored as Type
+static ILdouble iGetChannel(const ILubyte *Data, ILuint Index, ILenum Type)
+{
+	ILuint	Bits;
+	ILfloat	Value;
+
+	switch (Type)
+	{
+		case IL_SHORT:
+		case IL_UNSIGNED_SHORT:
+			return ((const ILushort*)Data)[Index];
+		case IL_INT:
+		case IL_UNSIGNED_INT:
+			return ((const ILuint*)Data)[Index];
+		case IL_HALF:
+			Bits = ilHalfToFloat(((const ILushort*)Data)[Index]);
+			memcpy(&Value, &Bits, sizeof(ILfloat));
+			return Value;
+		case IL_FLOAT:
+			return ((const ILfloat*)Data)[Index];
+		case IL_DOUBLE:
+			return ((const ILdouble*)Data)[Index];
+	}
+	return Data[Index];
+}
+
+
+// Stores Value as Type
+static void iSetChannel(ILubyte *Data, ILuint Index, ILenum Type, ILdouble Value)
+{
+	ILuint	Bits;
+	ILfloat	FloatValue;
+
+	switch (Type)
+	{
+		case IL_BYTE:
+		case IL_UNSIGNED_BYTE:
+			Data[Index] = (ILubyte)Value;
+			break;
+		case IL_SHORT:
+		case IL_UNSIGNED_SHORT:
+			((ILushort*)Data)[Index] = (ILushort)Value;
+			break;
+		case IL_INT:
+		case IL_UNSIGNED_INT:
+			((ILuint*)Data)[Index] = (ILuint)Value;
+			break;
+		case IL_HALF:
+			FloatValue = (ILfloat)Value;
+			memcpy(&Bits, &FloatValue, sizeof(ILfloat));
+			((ILushort*)Data)[Index] = ilFloatToHalf(Bits);
+			break;
+		case IL_FLOAT:
+			((ILfloat*)Data)[Index] = (ILfloat)Value;
+			break;
+		case IL_DOUBLE:
+			((ILdouble*)Data)[Index] = Value;
+			break;
+	}
+}
+
+
+// Limits what is copied along one axis to the source and the destination.
+static void iClipBlit(ILint *Dest, ILuint *Src, ILuint *Size, ILuint DestLimit, ILuint SrcLimit)
+{
+	if (*Dest < 0) {
+		const ILuint Skip = 0 - (ILuint)*Dest;
+		if (Skip >= *Size || Skip > UINT_MAX - *Src) {
+			*Size = 0;
+			return;
+		}
+		*Size -= Skip;
+		*Src += Skip;
+		*Dest = 0;
+	}
+	if ((ILuint)*Dest >= DestLimit || *Src >= SrcLimit) {
+		*Size = 0;
+		return;
+	}
+	if (*Size > DestLimit - *Dest)
+		*Size = DestLimit - *Dest;
+	if (*Size > SrcLimit - *Src)
+		*Size = SrcLimit - *Src;
+}
+
+
 //@NEXT DestX,DestY,DestZ must be set to ILuint
 ILboolean ILAPIENTRY ilBlit(ILuint Source, ILint DestX,  ILint DestY,   ILint DestZ, 
                                            ILuint SrcX,  ILuint SrcY,   ILuint SrcZ,
@@ -767,13 +678,12 @@ ILboolean ILAPIENTRY ilBlit(ILuint Source, ILint DestX,  ILint DestY,   ILint De
 {
 	ILuint 		x, y, z, ConvBps, ConvSizePlane;
 	ILimage 	*Dest,*Src;
-	ILubyte 	*Converted;
+	ILubyte 	*Converted, *SrcTemp;
 	ILuint		DestName = ilGetCurName();
-	ILuint		c;
-	ILuint		StartX, StartY, StartZ;
+	ILuint		c, NumColours;
+	ILint		AlphaChan = -1;
 	ILboolean	DestFlipped = IL_FALSE;
-	ILubyte 	*SrcTemp;
-	ILfloat		Back;
+	ILdouble	Front, AlphaMax = 1.0;
 
 	// Check if the desiination image really exists
 	if (DestName == 0 || iCurImage == NULL) {
@@ -781,133 +691,100 @@ ILboolean ILAPIENTRY ilBlit(ILuint Source, ILint DestX,  ILint DestY,   ILint De
 		return IL_FALSE;
 	}
 	Dest = iCurImage;
-	
-	// set the destination image to upper left origin
-	if (Dest->Origin == IL_ORIGIN_LOWER_LEFT) {  // Dest
-		DestFlipped = IL_TRUE;
-		ilFlipImage();
-	}
-	//DestOrigin = Dest->Origin;
-	ilBindImage(Source);
-	
+
 	// Check if the source image really exists
-	if (iCurImage == NULL) {
+	if (Source != 0 && !ilIsImage(Source)) {
 		ilSetError(IL_INVALID_PARAM);
 		return IL_FALSE;
 	}
-	
+	ilBindImage(Source);
 	Src = iCurImage;
-	
-	//@TODO test if coordinates are inside the images (hard limit for source)
-	
-	// set the source image to upper left origin
-	if (Src->Origin == IL_ORIGIN_LOWER_LEFT)
-	{
-		SrcTemp = iGetFlipped(iCurImage);
-		if (SrcTemp == NULL)
-		{
-			ilBindImage(DestName);
-			if (DestFlipped)
-				ilFlipImage();
-			return IL_FALSE;
-		}
+	ilBindImage(DestName);
+	iCurImage = Dest;  // Could be a subimage
+
+	// Positions count from the upper left corner of both images
+	SrcTemp = (Src->Origin == IL_ORIGIN_LOWER_LEFT) ? iGetFlipped(Src) : Src->Data;
+	if (SrcTemp == NULL)
+		return IL_FALSE;
+
+	// convert source image to match the destination image type and format
+	Converted = (ILubyte*)ilConvertBuffer(Src->SizeOfData, Src->Format, Dest->Format, Src->Type, Dest->Type, &Src->Pal, SrcTemp);
+	if (Converted == NULL) {
+		if (SrcTemp != Src->Data)
+			ifree(SrcTemp);
+		return IL_FALSE;
+	}
+
+	// Only formats with alpha are blended, and the destination keeps its own alpha.
+	if (ilIsEnabled(IL_BLIT_BLEND)) {
+		if (Src->Format == IL_RGBA || Src->Format == IL_BGRA)
+			AlphaChan = 3;
+		else if (Src->Format == IL_LUMINANCE_ALPHA)
+			AlphaChan = 1;
 	}
-	else
+	switch (Src->Type)
 	{
-		SrcTemp = iCurImage->Data;
+		case IL_BYTE:
+		case IL_UNSIGNED_BYTE:
+			AlphaMax = UCHAR_MAX;
+			break;
+		case IL_SHORT:
+		case IL_UNSIGNED_SHORT:
+			AlphaMax = USHRT_MAX;
+			break;
+		case IL_INT:
+		case IL_UNSIGNED_INT:
+			AlphaMax = UINT_MAX;
+			break;
 	}
-	
-	// convert source image to match the destination image type and format
-	Converted = (ILubyte*)ilConvertBuffer(Src->SizeOfData, Src->Format, Dest->Format, Src->Type, Dest->Type, NULL, SrcTemp);
-	if (Converted == NULL)
-		return IL_FALSE;
-	
+	NumColours = Dest->Bpp;
+	if (AlphaChan >= 0 && (Dest->Format == IL_RGBA || Dest->Format == IL_BGRA
+		|| Dest->Format == IL_LUMINANCE_ALPHA || Dest->Format == IL_ALPHA))
+		NumColours--;
+
+	if (Dest->Origin == IL_ORIGIN_LOWER_LEFT) {
+		DestFlipped = IL_TRUE;
+		ilFlipImage();
+	}
+
 	ConvBps 	  = Dest->Bpp * Src->Width;
 	ConvSizePlane = ConvBps   * Src->Height;
-	
-	//@NEXT in next version this would have to be removed since Dest* will be unsigned
-	StartX = DestX >= 0 ? 0 : -DestX;
-	StartY = DestY >= 0 ? 0 : -DestY;
-	StartZ = DestZ >= 0 ? 0 : -DestZ;
-	
-	// Limit the copy of data inside of the destination image
-	if (Width  + DestX > Dest->Width)  Width  = Dest->Width  - DestX;
-	if (Height + DestY > Dest->Height) Height = Dest->Height - DestY;
-	if (Depth  + DestZ > Dest->Depth)  Depth  = Dest->Depth  - DestZ;
-	
-	//@TODO: non funziona con rgba
-	if (Src->Format == IL_RGBA || Src->Format == IL_BGRA || Src->Format == IL_LUMINANCE_ALPHA) {
-		const ILuint bpp_without_alpha = Dest->Bpp - 1;
-		for (z = 0; z < Depth; z++) {
-			for (y = 0; y < Height; y++) {
-				for (x = 0; x < Width; x++) {
-					const ILuint  SrcIndex  = (z+SrcZ)*ConvSizePlane + (y+SrcY)*ConvBps + (x+SrcX)*Dest->Bpp;
-					const ILuint  DestIndex = (z+DestZ)*Dest->SizeOfPlane + (y+DestY)*Dest->Bps + (x+DestX)*Dest->Bpp;
-					const ILuint  AlphaIdx = SrcIndex + bpp_without_alpha;
-					ILfloat Front = 0;
-					
-					switch (Dest->Type)
-					{
-						case IL_BYTE:
-						case IL_UNSIGNED_BYTE:
-							Front = Converted[AlphaIdx]/((float)IL_MAX_UNSIGNED_BYTE);
-							break;
-						case IL_SHORT:
-						case IL_UNSIGNED_SHORT:
-							Front = ((ILshort*)Converted)[AlphaIdx]/((float)IL_MAX_UNSIGNED_SHORT);
-							break;
-						case IL_INT:
-						case IL_UNSIGNED_INT:
-							Front = ((ILint*)Converted)[AlphaIdx]/((float)IL_MAX_UNSIGNED_INT);
-							break;
-						case IL_FLOAT:
-							Front = ((ILfloat*)Converted)[AlphaIdx];
-							break;
-						case IL_DOUBLE:
-							Front = (ILfloat)(((ILdouble*)Converted)[AlphaIdx]);
-							break;
-					}
-					Back = 1.0f - Front;
-					// In case of Alpha channel, the data is blended. Keeps the original alpha.
-					if (ilIsEnabled(IL_BLIT_BLEND)) {
-						for (c = 0; c < bpp_without_alpha; c++)
-						{
-							Dest->Data[DestIndex + c] = 
-								(ILubyte)(Converted[SrcIndex + c] * Front
-											+ Dest->Data[DestIndex + c] * Back);
-						}
-					}
-					else {
-						for (c = 0; c < Dest->Bpp; c++)
-						{
-							Dest->Data[DestIndex + c] = (ILubyte)(Converted[SrcIndex + c]);
-						}
+
+	iClipBlit(&DestX, &SrcX, &Width,  Dest->Width,  Src->Width);
+	iClipBlit(&DestY, &SrcY, &Height, Dest->Height, Src->Height);
+	iClipBlit(&DestZ, &SrcZ, &Depth,  Dest->Depth,  Src->Depth);
+	if (Width == 0 || Height == 0)
+		Depth = 0;
+
+	for (z = 0; z < Depth; z++) {
+		for (y = 0; y < Height; y++) {
+			for (x = 0; x < Width; x++) {
+				const ILuint SrcIndex  = (z+SrcZ)*ConvSizePlane + (y+SrcY)*ConvBps + (x+SrcX)*Dest->Bpp;
+				const ILuint DestIndex = (((z+DestZ)*Dest->Height + (y+DestY))*Dest->Width + (x+DestX))*Dest->Bpp;
+
+				if (AlphaChan >= 0) {
+					const ILuint SrcPixel = ((z+SrcZ)*Src->Height + (y+SrcY))*Src->Width + (x+SrcX);
+					Front = iGetChannel(SrcTemp, SrcPixel * Src->Bpp + AlphaChan, Src->Type) / AlphaMax;
+					for (c = 0; c < NumColours; c++) {
+						iSetChannel(Dest->Data, DestIndex + c, Dest->Type,
+							iGetChannel(Converted, SrcIndex + c, Dest->Type) * Front
+							+ iGetChannel(Dest->Data, DestIndex + c, Dest->Type) * (1.0 - Front));
 					}
 				}
-			}
-		}
-	} else {
-		for( z = 0; z < Depth; z++ ) {
-			for( y = 0; y < Height; y++ ) {
-				for( x = 0; x < Width; x++ ) {
-					for( c = 0; c < Dest->Bpp; c++ ) {
-						Dest->Data[(z+DestZ)*Dest->SizeOfPlane + (y+DestY)*Dest->Bps + (x+DestX)*Dest->Bpp + c] =
-						 Converted[(z+SrcZ)*ConvSizePlane + (y+SrcY)*ConvBps + (x+SrcX)*Dest->Bpp + c];
-					}
+				else {
+					memcpy(Dest->Data + DestIndex * Dest->Bpc, Converted + SrcIndex * Dest->Bpc, Dest->Bpp * Dest->Bpc);
 				}
 			}
 		}
 	}
-	
-	if (SrcTemp != iCurImage->Data)
-		ifree(SrcTemp);
-	
-	ilBindImage(DestName);
+
 	if (DestFlipped)
 		ilFlipImage();
-	
+
+	if (SrcTemp != Src->Data)
+		ifree(SrcTemp);
 	ifree(Converted);
-	
+
 	return IL_TRUE;
 }
 
@@ -1026,6 +903,11 @@ ILAPI ILboolean ILAPIENTRY ilCopyImageAttr(ILimage *Dest, ILimage *Src)
 		Dest->DxtcFormat = IL_DXT_NO_COMP;
 		Dest->DxtcSize = 0;
 	}
+	if (Dest->AnimList) {
+		ifree(Dest->AnimList);
+		Dest->AnimList = NULL;
+		Dest->AnimSize = 0;
+	}
 	
 	if (Src->AnimList && Src->AnimSize) {
 		Dest->AnimList = (ILuint*)ialloc(Src->AnimSize * sizeof(ILuint));
@@ -1086,14 +968,21 @@ ILboolean ILAPIENTRY ilCopyImage(ILuint Src)
 		ilSetError(IL_ILLEGAL_OPERATION);
 		return IL_FALSE;
 	}
+	if (Src != 0 && !ilIsImage(Src)) {
+		ilSetError(IL_INVALID_PARAM);
+		return IL_FALSE;
+	}
 	
 	ilBindImage(Src);
 	SrcImage = iCurImage;
 	ilBindImage(DestName);
-	ilTexImage(SrcImage->Width, SrcImage->Height, SrcImage->Depth, SrcImage->Bpp, SrcImage->Format, SrcImage->Type, SrcImage->Data);
-	ilCopyImageAttr(DestImage, SrcImage);
+	iCurImage = DestImage;  // Could be a subimage
+	if (SrcImage == DestImage)
+		return IL_TRUE;
+	if (!ilTexImage_(DestImage, SrcImage->Width, SrcImage->Height, SrcImage->Depth, SrcImage->Bpp, SrcImage->Format, SrcImage->Type, SrcImage->Data))
+		return IL_FALSE;
 	
-	return IL_TRUE;
+	return ilCopyImageAttr(DestImage, SrcImage);
 }
 
 
@@ -1112,8 +1001,10 @@ ILAPI ILimage* ILAPIENTRY ilCopyImage_(ILimage *Src)
 		return NULL;
 	}
 	
-	if (ilCopyImageAttr(Dest, Src) == IL_FALSE)
+	if (ilCopyImageAttr(Dest, Src) == IL_FALSE) {
+		ilCloseImage(Dest);
 		return NULL;
+	}
 	
 	memcpy(Dest->Data, Src->Data, Src->SizeOfData);
 	
@@ -1123,8 +1014,9 @@ ILAPI ILimage* ILAPIENTRY ilCopyImage_(ILimage *Src)
 
 ILuint ILAPIENTRY ilCloneCurImage()
 {
-	ILuint Id;
+	ILuint Id = 0, CurName;
 	ILimage *CurImage;
+	ILboolean Copied;
 	
 	if (iCurImage == NULL) {
 		ilSetError(IL_ILLEGAL_OPERATION);
@@ -1136,12 +1028,19 @@ ILuint ILAPIENTRY ilCloneCurImage()
 		return 0;
 	
 	CurImage = iCurImage;
+	CurName = ilGetCurName();
 	
 	ilBindImage(Id);
-	ilTexImage(CurImage->Width, CurImage->Height, CurImage->Depth, CurImage->Bpp, CurImage->Format, CurImage->Type, CurImage->Data);
-	ilCopyImageAttr(iCurImage, CurImage);
+	Copied = ilTexImage(CurImage->Width, CurImage->Height, CurImage->Depth, CurImage->Bpp, CurImage->Format, CurImage->Type, CurImage->Data)
+		&& ilCopyImageAttr(iCurImage, CurImage);
 	
+	ilBindImage(CurName);
 	iCurImage = CurImage;
+
+	if (!Copied) {
+		ilDeleteImages(1, &Id);
+		return 0;
+	}
 	
 	return Id;
 }
@@ -1155,6 +1054,9 @@ ILAPI ILboolean ILAPIENTRY ilResizeImage(ILimage *Image, ILuint Width, ILuint He
 		return IL_FALSE;
 	}
 	
+	if (!iCheckImageParams(Width, Height, Depth, Bpp, ilGetTypeBpc(Bpc)))
+		return IL_FALSE;
+
 	if (Image->Data != NULL)
 		ifree(Image->Data);
 	
-- 
2.43.0


From 05602b8ad6d57e2dc31e2f57c075174bb1cc1ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:46 +0000
Subject: [PATCH 021/115] fix: ILU geometry, regions, rotation, scaling,
 comparison and equalisation

Cropping, enlarging the canvas, negative, wave, colour counting, comparing,
equalising, regions, rotating and scaling read and wrote outside images,
ignored samples wider than a byte, lost palettes and leaked on errors.
The unused 2-D and 3-D scalers are folded into iScaleImage.
---
 DevIL/src-IL/src/il_devil.cpp        |   6 +
 DevIL/src-ILU/include/ilu_internal.h |   1 +
 DevIL/src-ILU/src/ilu_filter_rcg.cpp | 141 ++----
 DevIL/src-ILU/src/ilu_internal.cpp   |  34 ++
 DevIL/src-ILU/src/ilu_manip.cpp      | 613 ++++++++++-----------------
 DevIL/src-ILU/src/ilu_mipmap.cpp     |   4 +-
 DevIL/src-ILU/src/ilu_region.cpp     | 312 +++++---------
 DevIL/src-ILU/src/ilu_rotate.cpp     | 322 +++-----------
 DevIL/src-ILU/src/ilu_scale.cpp      | 367 +++++++---------
 DevIL/src-ILU/src/ilu_scale2d.cpp    | 479 ---------------------
 DevIL/src-ILU/src/ilu_scale3d.cpp    | 313 --------------
 11 files changed, 644 insertions(+), 1948 deletions(-)
 delete mode 100644 DevIL/src-ILU/src/ilu_scale2d.cpp
 delete mode 100644 DevIL/src-ILU/src/ilu_scale3d.cpp

diff --git a/DevIL/src-IL/src/il_devil.cpp b/DevIL/src-IL/src/il_devil.cpp
index 26f680a..f613c9d 100644
--- a/DevIL/src-IL/src/il_devil.cpp
+++ b/DevIL/src-IL/src/il_devil.cpp
@@ -1059,6 +1059,12 @@ ILAPI ILboolean ILAPIENTRY ilResizeImage(ILimage *Image, ILuint Width, ILuint He
 
 	if (Image->Data != NULL)
 		ifree(Image->Data);
+	if (Image->DxtcData) {
+		ifree(Image->DxtcData);
+		Image->DxtcData = NULL;
+		Image->DxtcFormat = IL_DXT_NO_COMP;
+		Image->DxtcSize = 0;
+	}
 	
 	Image->Depth = Depth;
 	Image->Width = Width;
diff --git a/DevIL/src-ILU/include/ilu_internal.h b/DevIL/src-ILU/include/ilu_internal.h
index d385aea..09f4ff1 100644
--- a/DevIL/src-ILU/include/ilu_internal.h
+++ b/DevIL/src-ILU/include/ilu_internal.h
@@ -80,6 +80,7 @@ ILint ilRound(ILfloat Num);
 
 ILuint	iluScaleAdvanced(ILuint Width, ILuint Height, ILenum Filter);
 ILubyte	*iScanFill(void);
+void	iTakeImage(ILimage *Dest, ILimage *Src);
 
 
 #endif//INTERNAL_H
diff --git a/DevIL/src-ILU/src/ilu_filter_rcg.cpp b/DevIL/src-ILU/src/ilu_filter_rcg.cpp
index 269408a..8aca4f7 100644
--- a/DevIL/src-ILU/src/ilu_filter_rcg.cpp
+++ b/DevIL/src-ILU/src/ilu_filter_rcg.cpp
@@ -227,7 +227,7 @@ int calc_x_contrib( CLIST *contribX, double xscale, double fwidth, int dstwidth,
 	double width;
 	double fscale;
 	double center, left, right;
-	double weight;
+	double weight, total;
 	int j, k, n;
 
 	if(xscale < 1.0)
@@ -235,51 +235,43 @@ int calc_x_contrib( CLIST *contribX, double xscale, double fwidth, int dstwidth,
 		/* Shrinking image */
 		width = fwidth / xscale;
 		fscale = 1.0 / xscale;
-
-		contribX->n = 0;
-		contribX->p = (CONTRIB *)icalloc((int) (width * 2 + 1),
-				sizeof(CONTRIB));
-		if (contribX->p == NULL) {
-			return -1;
-		}
-
-		center = (double) i / xscale;
-		left = ceil(center - width);
-		right = floor(center + width);
-		for(j = (int)left; j <= right; ++j)
-		{
-			weight = center - (double) j;
-			weight = (*filterf)(weight / fscale) / fscale;
-			n = wrap_filter_sample(j, srcwidth);
-			
-			k = contribX->n++;
-			contribX->p[k].pixel = n;
-			contribX->p[k].weight = weight;
-		}
-	
 	}
 	else
 	{
 		/* Expanding image */
-		contribX->n = 0;
-		contribX->p = (CONTRIB*)icalloc((int) (fwidth * 2 + 1),
-				sizeof(CONTRIB));
-		if (contribX->p == NULL) {
-			return -1;
-		}
-		center = (double) i / xscale;
-		left = ceil(center - fwidth);
-		right = floor(center + fwidth);
+		width = fwidth;
+		fscale = 1.0;
+	}
 
-		for(j = (int)left; j <= right; ++j)
-		{
-			weight = center - (double) j;
-			weight = (*filterf)(weight);
-			n = wrap_filter_sample(j, srcwidth);
-			k = contribX->n++;
-			contribX->p[k].pixel = n;
-			contribX->p[k].weight = weight;
-		}
+	center = (double) i / xscale;
+	left = ceil(center - width);
+	right = floor(center + width);
+
+	contribX->n = 0;
+	contribX->p = (CONTRIB *)icalloc((int) (right - left) + 1,
+			sizeof(CONTRIB));
+	if (contribX->p == NULL) {
+		return -1;
+	}
+
+	total = 0.0;
+	for(j = (int)left; j <= right; ++j)
+	{
+		weight = center - (double) j;
+		weight = (*filterf)(weight / fscale) / fscale;
+		n = wrap_filter_sample(j, srcwidth);
+
+		k = contribX->n++;
+		contribX->p[k].pixel = n;
+		contribX->p[k].weight = weight;
+		total += weight;
+	}
+
+	/* The samples of a filter need not add up to 1. */
+	if(total != 0.0)
+	{
+		for(k = 0; k < contribX->n; ++k)
+			contribX->p[k].weight /= total;
 	}
 	return 0;
 } /* calc_x_contrib */
@@ -296,9 +288,7 @@ int zoom( ILimage *dst, ILimage *src, double (*filterf)(double), double fwidth)
 	double xscale, yscale;		/* zoom scale factors */
 	int xx;
 	int i, j, k;			/* loop variables */
-	int n;				/* pixel number */
-	double center, left, right;	/* filter calculation variables */
-	double width, fscale, weight;	/* filter calculation variables */
+	double weight;	/* filter calculation variables */
 	ILubyte pel, pel2;
 	int bPelDelta;
 	CLIST	*contribY;		/* array of contribution lists */
@@ -308,7 +298,7 @@ int zoom( ILimage *dst, ILimage *src, double (*filterf)(double), double fwidth)
 	/* create intermediate column to hold horizontal dst column zoom */
 	tmp = (ILubyte*)ialloc(src->Height * sizeof(ILubyte));
 	if (tmp == NULL) {
-		return 0;
+		return -1;
 	}
 
 	xscale = (double) dst->Width / (double) src->Width;
@@ -323,57 +313,15 @@ int zoom( ILimage *dst, ILimage *src, double (*filterf)(double), double fwidth)
 
 	yscale = (double) dst->Height / (double) src->Height;
 
-	if(yscale < 1.0)
+	for(i = 0; i < (ILint)dst->Height; ++i)
 	{
-		width = fwidth / yscale;
-		fscale = 1.0 / yscale;
-		for(i = 0; i < (ILint)dst->Height; ++i)
+		if(0 != calc_x_contrib(&contribY[i], yscale, fwidth,
+								dst->Height, src->Height, filterf, i))
 		{
-			contribY[i].n = 0;
-			contribY[i].p = (CONTRIB*)icalloc((int) (width * 2 + 1),
-					sizeof(CONTRIB));
-			if(contribY[i].p == NULL) {
-				ifree(tmp);
-				ifree(contribY);
-				return -1;
-			}
-			center = (double) i / yscale;
-			left = ceil(center - width);
-			right = floor(center + width);
-			for(j = (int)left; j <= right; ++j) {
-				weight = center - (double) j;
-				weight = (*filterf)(weight / fscale) / fscale;
-				n = wrap_filter_sample(j, src->Height);
-				k = contribY[i].n++;
-				contribY[i].p[k].pixel = n;
-				contribY[i].p[k].weight = weight;
-			}
-		}
-	} else {
-		for(i = 0; i < (ILint)dst->Height; ++i) {
-			contribY[i].n = 0;
-			contribY[i].p = (CONTRIB*)icalloc((int) (fwidth * 2 + 1),
-					sizeof(CONTRIB));
-			if (contribY[i].p == NULL) {
-				ifree(tmp);
-				ifree(contribY);
-				return -1;
-			}
-			center = (double) i / yscale;
-			left = ceil(center - fwidth);
-			right = floor(center + fwidth);
-			for(j = (int)left; j <= right; ++j) {
-				weight = center - (double) j;
-				weight = (*filterf)(weight);
-				n = wrap_filter_sample(j, src->Height);
-				k = contribY[i].n++;
-				contribY[i].p[k].pixel = n;
-				contribY[i].p[k].weight = weight;
-			}
+			goto __zoom_cleanup;
 		}
 	}
 
-
 	for(xx = 0; xx < (ILint)dst->Width; xx++)
 	{
 		if(0 != calc_x_contrib(&contribX, xscale, fwidth, 
@@ -472,19 +420,18 @@ ILuint iluScaleAdvanced(ILuint Width, ILuint Height, ILenum Filter)
 		//case 'h': f=filter; s=filter_support; break;
 	}
 
-	Dest = ilNewImage(Width, Height, 1, iluCurImage->Bpp, 1);
+	Dest = ilNewImageFull(Width, Height, 1, iluCurImage->Bpp, iluCurImage->Format, iluCurImage->Type, NULL);
+	if (Dest == NULL)
+		return IL_FALSE;
 	Dest->Origin = iluCurImage->Origin;
-	Dest->Duration = iluCurImage->Duration;
 	for (c = 0; c < (ILuint)iluCurImage->Bpp; c++) {
 		if (zoom(Dest, iluCurImage, f, s) != 0) {
+			ilCloseImage(Dest);
 			return IL_FALSE;
 		}
 	}
 
-	ilTexImage(Width, Height, 1, iluCurImage->Bpp, iluCurImage->Format, iluCurImage->Type, Dest->Data);
-	iluCurImage->Origin = Dest->Origin;
-	iluCurImage->Duration = Dest->Duration;
-	ilCloseImage(Dest);
+	iTakeImage(iluCurImage, Dest);
 
 	return IL_TRUE;
 }
diff --git a/DevIL/src-ILU/src/ilu_internal.cpp b/DevIL/src-ILU/src/ilu_internal.cpp
index 20036d7..aae55da 100644
--- a/DevIL/src-ILU/src/ilu_internal.cpp
+++ b/DevIL/src-ILU/src/ilu_internal.cpp
@@ -19,3 +19,37 @@ ILfloat ilSin(ILfloat Angle) {
 ILint ilRound(ILfloat Num) {
     return (ILint)(Num + 0.5); // this is truncating in away-from-0, not rounding
 }
+
+
+// Gives the pixels and the palette of Src to Dest and closes Src.  Everything else of Dest stays as it is.
+void iTakeImage(ILimage *Dest, ILimage *Src)
+{
+	ifree(Dest->Data);
+	ifree(Dest->Pal.Palette);
+	ifree(Dest->DxtcData);
+	Dest->DxtcData    = NULL;
+	Dest->DxtcFormat  = IL_DXT_NO_COMP;
+	Dest->DxtcSize    = 0;
+
+	Dest->Width       = Src->Width;
+	Dest->Height      = Src->Height;
+	Dest->Depth       = Src->Depth;
+	Dest->Bpp         = Src->Bpp;
+	Dest->Bpc         = Src->Bpc;
+	Dest->Bps         = Src->Bps;
+	Dest->SizeOfPlane = Src->SizeOfPlane;
+	Dest->SizeOfData  = Src->SizeOfData;
+	Dest->Format      = Src->Format;
+	Dest->Type        = Src->Type;
+	Dest->Origin      = Src->Origin;
+	Dest->Data        = Src->Data;
+	Dest->Pal         = Src->Pal;
+
+	Src->Data         = NULL;
+	Src->Pal.Palette  = NULL;
+	Src->Pal.PalSize  = 0;
+	Src->Pal.PalType  = IL_PAL_NONE;
+	ilCloseImage(Src);
+
+	return;
+}
diff --git a/DevIL/src-ILU/src/ilu_manip.cpp b/DevIL/src-ILU/src/ilu_manip.cpp
index 856b8c1..e719ab3 100644
--- a/DevIL/src-ILU/src/ilu_manip.cpp
+++ b/DevIL/src-ILU/src/ilu_manip.cpp
@@ -5,116 +5,116 @@
 #include <limits.h>
 
 
-ILboolean iluCrop2D(ILuint XOff, ILuint YOff, ILuint Width, ILuint Height) {
-	ILuint	x, y, c, OldBps;
-	ILubyte	*Data;
-	ILenum	Origin;
-
-	iluCurImage = ilGetCurImage();
-	if (iluCurImage == NULL) {
-		ilSetError(ILU_ILLEGAL_OPERATION);
-		return IL_FALSE;
-	}
-
-	// Uh-oh, what about 0 dimensions?!
-	if (Width > iluCurImage->Width || Height > iluCurImage->Height) {
-		ilSetError(ILU_ILLEGAL_OPERATION);
-		return IL_FALSE;
-	}
+// Gives the current image another size.  The part of it that begins at SrcX, SrcY, SrcZ goes to DestX, DestY, DestZ,
+//	as far as the sizes go, and Fill holds the pixel for the rest (may be NULL if nothing is left).
+static ILboolean iResizeCanvas(ILuint Width, ILuint Height, ILuint Depth, ILuint SrcX, ILuint SrcY, ILuint SrcZ,
+							   ILuint DestX, ILuint DestY, ILuint DestZ, const ILubyte *Fill)
+{
+	ILimage	Old = *iluCurImage;
+	ILuint	i, y, z, PixSize, CopyW, CopyH, CopyD;
 
-	Data = (ILubyte*)ialloc(iluCurImage->SizeOfData);
-	if (Data == NULL) {
+	iluCurImage->Data = NULL;
+	if (!ilResizeImage(iluCurImage, Width, Height, Depth, Old.Bpp, Old.Bpc)) {
+		*iluCurImage = Old;
 		return IL_FALSE;
 	}
 
-	OldBps = iluCurImage->Bps;
-	Origin = iluCurImage->Origin;
-	ilCopyPixels(0, 0, 0, iluCurImage->Width, iluCurImage->Height, 1, iluCurImage->Format, iluCurImage->Type, Data);
-	if (!ilTexImage(Width, Height, iluCurImage->Depth, iluCurImage->Bpp, iluCurImage->Format, iluCurImage->Type, NULL)) {
-		free(Data);
-		return IL_FALSE;
+	PixSize = Old.Bpp * Old.Bpc;
+	if (Fill != NULL) {
+		for (i = 0; i < iluCurImage->SizeOfData; i += PixSize)
+			memcpy(iluCurImage->Data + i, Fill, PixSize);
 	}
-	iluCurImage->Origin = Origin;
 
-	// @TODO:  Optimize!  (Especially XOff * iluCurImage->Bpp...get rid of it!)
-	for (y = 0; y < iluCurImage->Height; y++) {
-		for (x = 0; x < iluCurImage->Bps; x += iluCurImage->Bpp) {
-			for (c = 0; c < iluCurImage->Bpp; c++) {
-				iluCurImage->Data[y * iluCurImage->Bps + x + c] = 
-					Data[(y + YOff) * OldBps + x + XOff * iluCurImage->Bpp + c];
-			}
+	CopyW = IL_MIN(Old.Width  - SrcX, iluCurImage->Width  - DestX);
+	CopyH = IL_MIN(Old.Height - SrcY, iluCurImage->Height - DestY);
+	CopyD = IL_MIN(Old.Depth  - SrcZ, iluCurImage->Depth  - DestZ);
+	for (z = 0; z < CopyD; z++) {
+		for (y = 0; y < CopyH; y++) {
+			memcpy(iluCurImage->Data + (z + DestZ) * iluCurImage->SizeOfPlane + (y + DestY) * iluCurImage->Bps + DestX * PixSize,
+				Old.Data + (z + SrcZ) * Old.SizeOfPlane + (y + SrcY) * Old.Bps + SrcX * PixSize, CopyW * PixSize);
 		}
 	}
 
-	ifree(Data);
+	ifree(Old.Data);
 
 	return IL_TRUE;
 }
 
 
-ILboolean iluCrop3D(ILuint XOff, ILuint YOff, ILuint ZOff, ILuint Width, ILuint Height, ILuint Depth)
+//! Cuts a part out of the current image.  Rows are counted in the order of the image.
+ILboolean ILAPIENTRY iluCrop(ILuint XOff, ILuint YOff, ILuint ZOff, ILuint Width, ILuint Height, ILuint Depth)
 {
-	ILuint	x, y, z, c, OldBps, OldPlane;
-	ILubyte	*Data;
-	ILenum	Origin;
-
 	iluCurImage = ilGetCurImage();
 	if (iluCurImage == NULL) {
 		ilSetError(ILU_ILLEGAL_OPERATION);
 		return IL_FALSE;
 	}
 
-	// Uh-oh, what about 0 dimensions?!
-	if (Width > iluCurImage->Width || Height > iluCurImage->Height || Depth > iluCurImage->Depth) {
+	// There is always at least one pixel.
+	Width  = IL_MAX(Width,  1);
+	Height = IL_MAX(Height, 1);
+	Depth  = IL_MAX(Depth,  1);
+
+	if (XOff >= iluCurImage->Width || YOff >= iluCurImage->Height || ZOff >= iluCurImage->Depth ||
+		Width > iluCurImage->Width - XOff || Height > iluCurImage->Height - YOff || Depth > iluCurImage->Depth - ZOff) {
 		ilSetError(ILU_ILLEGAL_OPERATION);
 		return IL_FALSE;
 	}
 
-	Data = (ILubyte*)ialloc(iluCurImage->SizeOfData);
-	if (Data == NULL) {
-		return IL_FALSE;
-	}
+	return iResizeCanvas(Width, Height, Depth, XOff, YOff, ZOff, 0, 0, 0, NULL);
+}
 
-	OldBps = iluCurImage->Bps;
-	OldPlane = iluCurImage->SizeOfPlane;
-	Origin = iluCurImage->Origin;
-	ilCopyPixels(0, 0, 0, iluCurImage->Width, iluCurImage->Height, iluCurImage->Depth, iluCurImage->Format, iluCurImage->Type, Data);
-	if (!ilTexImage(Width - XOff, Height - YOff, Depth - ZOff, iluCurImage->Bpp, iluCurImage->Format, iluCurImage->Type, NULL)) {
-		ifree(Data);
-	}
-	iluCurImage->Origin = Origin;
-
-	for (z = 0; z < iluCurImage->Depth; z++) {
-		for (y = 0; y < iluCurImage->Height; y++) {
-			for (x = 0; x < iluCurImage->Bps; x += iluCurImage->Bpp) {
-				for (c = 0; c < iluCurImage->Bpp; c++) {
-					iluCurImage->Data[z * iluCurImage->SizeOfPlane + y * iluCurImage->Bps + x + c] = 
-						Data[(z + ZOff) * OldPlane + (y + YOff) * OldBps + (x + XOff) + c];
-				}
+
+// Finds the pixel that shows the clear colour best in the current image.
+static void iGetClearPixel(ILubyte *Pixel)
+{
+	ILubyte	Clear[4], *Entry;
+	ILuint	i, NumCols, PalBpp, Best = UINT_MAX, Dist;
+	ILint	c, Diff;
+
+	if (iluCurImage->Format != IL_COLOUR_INDEX) {
+		ilGetClear(Pixel, iluCurImage->Format, iluCurImage->Type);
+		return;
+	}
+
+	// The palette stays as it is.
+	Pixel[0] = 0;
+	PalBpp = ilGetBppPal(iluCurImage->Pal.PalType);
+	if (iluCurImage->Pal.Palette == NULL || PalBpp < 3)
+		return;
+	ilGetClear(Clear, IL_RGBA, IL_UNSIGNED_BYTE);
+	NumCols = IL_MIN(iluCurImage->Pal.PalSize / PalBpp, 256);
+	for (i = 0; i < NumCols; i++) {
+		Entry = iluCurImage->Pal.Palette + i * PalBpp;
+		Dist = 0;
+		for (c = 0; c < 3; c++) {
+			switch (iluCurImage->Pal.PalType)
+			{
+				case IL_PAL_BGR24:
+				case IL_PAL_BGR32:
+				case IL_PAL_BGRA32:
+					Diff = Entry[2 - c] - Clear[c];
+					break;
+				default:
+					Diff = Entry[c] - Clear[c];
 			}
+			Dist += Diff * Diff;
+		}
+		if (Dist < Best) {
+			Best = Dist;
+			Pixel[0] = (ILubyte)i;
 		}
 	}
 
-	ifree(Data);
-
-	return IL_TRUE;
-}
-
-
-ILboolean ILAPIENTRY iluCrop(ILuint XOff, ILuint YOff, ILuint ZOff, ILuint Width, ILuint Height, ILuint Depth)
-{
-	if (ZOff <= 1)
-		return iluCrop2D(XOff, YOff, Width, Height);
-	return iluCrop3D(XOff, YOff, ZOff, Width, Height, Depth);
+	return;
 }
 
 
 //! Enlarges the canvas
 ILboolean ILAPIENTRY iluEnlargeCanvas(ILuint Width, ILuint Height, ILuint Depth)
 {
-	ILubyte	*Data/*, Clear[4]*/;
-	ILuint	x, y, z, OldBps, OldH, OldD, OldPlane, AddX, AddY;
-	ILenum	Origin;
+	ILdouble	Clear[4];
+	ILuint		AddX, AddY;
 
 	iluCurImage = ilGetCurImage();
 	if (iluCurImage == NULL) {
@@ -122,112 +122,39 @@ ILboolean ILAPIENTRY iluEnlargeCanvas(ILuint Width, ILuint Height, ILuint Depth)
 		return IL_FALSE;
 	}
 
-	// Uh-oh, what about 0 dimensions?!
 	if (Width < iluCurImage->Width || Height < iluCurImage->Height || Depth < iluCurImage->Depth) {
 		ilSetError(ILU_ILLEGAL_OPERATION);
 		return IL_FALSE;
 	}
 
-	if (iluCurImage->Origin == IL_ORIGIN_LOWER_LEFT) {
-		switch (iluPlacement)
-		{
-			case ILU_LOWER_LEFT:
-				AddX = 0;
-				AddY = 0;
-				break;
-			case ILU_LOWER_RIGHT:
-				AddX = Width - iluCurImage->Width;
-				AddY = 0;
-				break;
-			case ILU_UPPER_LEFT:
-				AddX = 0;
-				AddY = Height - iluCurImage->Height;
-				break;
-			case ILU_UPPER_RIGHT:
-				AddX = Width - iluCurImage->Width;
-				AddY = Height - iluCurImage->Height;
-				break;
-			case ILU_CENTER:
-				AddX = (Width - iluCurImage->Width) >> 1;
-				AddY = (Height - iluCurImage->Height) >> 1;
-				break;
-			default:
-				ilSetError(ILU_INVALID_PARAM);
-				return IL_FALSE;
-		}
-	}
-	else {  // IL_ORIGIN_UPPER_LEFT
-		switch (iluPlacement)
-		{
-			case ILU_LOWER_LEFT:
-				AddX = 0;
-				AddY = Height - iluCurImage->Height;
-				break;
-			case ILU_LOWER_RIGHT:
-				AddX = Width - iluCurImage->Width;
-				AddY = Height - iluCurImage->Height;
-				break;
-			case ILU_UPPER_LEFT:
-				AddX = 0;
-				AddY = 0;
-				break;
-			case ILU_UPPER_RIGHT:
-				AddX = Width - iluCurImage->Width;
-				AddY = 0;
-				break;
-			case ILU_CENTER:
-				AddX = (Width - iluCurImage->Width) >> 1;
-				AddY = (Height - iluCurImage->Height) >> 1;
-				break;
-			default:
-				ilSetError(ILU_INVALID_PARAM);
-				return IL_FALSE;
-		}
-	}
-
-	AddX *= iluCurImage->Bpp;
-
-	Data = (ILubyte*)ialloc(iluCurImage->SizeOfData);
-	if (Data == NULL) {
-		return IL_FALSE;
-	}
-
-	// Preserve old data.
-	OldPlane = iluCurImage->SizeOfPlane;
-	OldBps   = iluCurImage->Bps;
-	OldH     = iluCurImage->Height;
-	OldD     = iluCurImage->Depth;
-	Origin   = iluCurImage->Origin;
-	ilCopyPixels(0, 0, 0, iluCurImage->Width, iluCurImage->Height, OldD, iluCurImage->Format, iluCurImage->Type, Data);
-
-	ilTexImage(Width, Height, Depth, iluCurImage->Bpp, iluCurImage->Format, iluCurImage->Type, NULL);
-	iluCurImage->Origin = Origin;
-
-	ilClearImage();
-	/*ilGetClear(Clear);
-	if (iluCurImage->Bpp == 1) {
-		memset(iluCurImage->Data, Clear[3], iluCurImage->SizeOfData);
+	switch (iluPlacement)
+	{
+		case ILU_LOWER_LEFT:
+		case ILU_UPPER_LEFT:
+			AddX = 0;
+			break;
+		case ILU_LOWER_RIGHT:
+		case ILU_UPPER_RIGHT:
+			AddX = Width - iluCurImage->Width;
+			break;
+		case ILU_CENTER:
+			AddX = (Width - iluCurImage->Width) >> 1;
+			break;
+		default:
+			ilSetError(ILU_INVALID_PARAM);
+			return IL_FALSE;
 	}
-	else {
-		for (x = 0; x < iluCurImage->SizeOfData; x += iluCurImage->Bpp) {
-			for (y = 0; y < iluCurImage->Bpp; y++) {
-				iluCurImage->Data[y] = Clear[y];
-			}
-		}
-	}*/
 
-	for (z = 0; z < OldD; z++) {
-		for (y = 0; y < OldH; y++) {
-			for (x = 0; x < OldBps; x++) {
-				iluCurImage->Data[z * iluCurImage->SizeOfPlane + (y + AddY) * iluCurImage->Bps + x + AddX] =
-					Data[z * OldPlane + y * OldBps + x];
-			}
-		}
-	}
+	if (iluPlacement == ILU_CENTER)
+		AddY = (Height - iluCurImage->Height) >> 1;
+	else if ((iluPlacement == ILU_LOWER_LEFT || iluPlacement == ILU_LOWER_RIGHT) == (iluCurImage->Origin == IL_ORIGIN_LOWER_LEFT))
+		AddY = 0;
+	else
+		AddY = Height - iluCurImage->Height;
 
-	ifree(Data);
+	iGetClearPixel((ILubyte*)Clear);
 
-	return IL_TRUE;
+	return iResizeCanvas(Width, Height, Depth, 0, 0, 0, AddX, AddY, 0, (ILubyte*)Clear);
 }
 
 //! Flips an image over its x axis
@@ -296,33 +223,33 @@ ILboolean ILAPIENTRY iluInvertAlpha() {
 		case IL_BYTE:
 		case IL_UNSIGNED_BYTE:
 			Data += (Bpp - 1);
-			for( i = Bpp - 1; i < NumPix; i++, Data += Bpp )
+			for( i = 0; i < NumPix; i++, Data += Bpp )
 				*(Data) = ~*(Data);
 			break;
 
 		case IL_SHORT:
 		case IL_UNSIGNED_SHORT:
 			ShortPtr = ((ILushort*)Data) + Bpp-1;	
-			for (i = Bpp - 1; i < NumPix; i++, ShortPtr += Bpp)
+			for (i = 0; i < NumPix; i++, ShortPtr += Bpp)
 				*(ShortPtr) = ~*(ShortPtr);
 			break;
 
 		case IL_INT:
 		case IL_UNSIGNED_INT:
 			IntPtr = ((ILuint*)Data) + Bpp-1;
-			for (i = Bpp - 1; i < NumPix; i++, IntPtr += Bpp)
+			for (i = 0; i < NumPix; i++, IntPtr += Bpp)
 				*(IntPtr) = ~*(IntPtr);
 			break;
 
 		case IL_FLOAT:
 			FltPtr = ((ILfloat*)Data) + Bpp - 1;
-			for (i = Bpp - 1; i < NumPix; i++, FltPtr += Bpp)
+			for (i = 0; i < NumPix; i++, FltPtr += Bpp)
 				*(FltPtr) = 1.0f - *(FltPtr);
 			break;
 
 		case IL_DOUBLE:
 			DblPtr = ((ILdouble*)Data) + Bpp - 1;
-			for (i = Bpp - 1; i < NumPix; i++, DblPtr += Bpp)
+			for (i = 0; i < NumPix; i++, DblPtr += Bpp)
 				*(DblPtr) = 1.0f - *(DblPtr);
 			break;
 	}
@@ -334,9 +261,11 @@ ILboolean ILAPIENTRY iluInvertAlpha() {
 //! Inverts the colours in the image
 ILboolean ILAPIENTRY iluNegative()
 {
-	ILuint		i, j, c, *IntPtr, NumPix, Bpp;
+	ILuint		i, c, *IntPtr, NumPix, Bpp;
 	ILubyte		*Data;
 	ILushort	*ShortPtr;
+	ILfloat		*FltPtr;
+	ILdouble	*DblPtr;
 	ILubyte		*RegionMask;
 
 	iluCurImage = ilGetCurImage();
@@ -350,76 +279,50 @@ ILboolean ILAPIENTRY iluNegative()
 			ilSetError(ILU_ILLEGAL_OPERATION);
 			return IL_FALSE;
 		}
+		// The colours are in the palette, so all pixels are changed.
 		Data = iluCurImage->Pal.Palette;
-		i = iluCurImage->Pal.PalSize;
-	}
-	else {
-		Data = iluCurImage->Data;
-		i = iluCurImage->SizeOfData;
+		for (i = 0; i < iluCurImage->Pal.PalSize; i++)
+			Data[i] = ~Data[i];
+		return IL_TRUE;
 	}
 
 	RegionMask = iScanFill();
-	
+
 	// @TODO:  Optimize this some.
 
-	NumPix = i / iluCurImage->Bpc;
+	Data = iluCurImage->Data;
 	Bpp = iluCurImage->Bpp;
-
-	if (RegionMask) {
-		switch (iluCurImage->Bpc)
-		{
-			case 1:
-				for (j = 0, i = 0; j < NumPix; j += Bpp, i++, Data += Bpp) {
-					for (c = 0; c < Bpp; c++) {
-						if (RegionMask[i])
-							*(Data+c) = ~*(Data+c);
-					}
-				}
-				break;
-
-			case 2:
-				ShortPtr = (ILushort*)Data;
-				for (j = 0, i = 0; j < NumPix; j += Bpp, i++, ShortPtr += Bpp) {
-					for (c = 0; c < Bpp; c++) {
-						if (RegionMask[i])
-							*(ShortPtr+c) = ~*(ShortPtr+c);
-					}
-				}
-				break;
-
-			case 4:
-				IntPtr = (ILuint*)Data;
-				for (j = 0, i = 0; j < NumPix; j += Bpp, i++, IntPtr += Bpp) {
-					for (c = 0; c < Bpp; c++) {
-						if (RegionMask[i])
-							*(IntPtr+c) = ~*(IntPtr+c);
-					}
-				}
-				break;
-		}
-	}
-	else {
-		switch (iluCurImage->Bpc)
-		{
-			case 1:
-				for (j = 0; j < NumPix; j++, Data++) {
-					*(Data) = ~*(Data);
-				}
-				break;
-
-			case 2:
-				ShortPtr = (ILushort*)Data;
-				for (j = 0; j < NumPix; j++, ShortPtr++) {
-					*(ShortPtr) = ~*(ShortPtr);
-				}
-				break;
-
-			case 4:
-				IntPtr = (ILuint*)Data;
-				for (j = 0; j < NumPix; j++, IntPtr++) {
-					*(IntPtr) = ~*(IntPtr);
-				}
-				break;
+	NumPix = iluCurImage->Width * iluCurImage->Height * iluCurImage->Depth;
+	ShortPtr = (ILushort*)Data;
+	IntPtr = (ILuint*)Data;
+	FltPtr = (ILfloat*)Data;
+	DblPtr = (ILdouble*)Data;
+
+	for (i = 0; i < NumPix; i++) {
+		if (RegionMask && !RegionMask[i])
+			continue;
+		for (c = i * Bpp; c < (i + 1) * Bpp; c++) {
+			switch (iluCurImage->Type)
+			{
+				case IL_BYTE:
+				case IL_UNSIGNED_BYTE:
+					Data[c] = ~Data[c];
+					break;
+				case IL_SHORT:
+				case IL_UNSIGNED_SHORT:
+					ShortPtr[c] = ~ShortPtr[c];
+					break;
+				case IL_INT:
+				case IL_UNSIGNED_INT:
+					IntPtr[c] = ~IntPtr[c];
+					break;
+				case IL_FLOAT:
+					FltPtr[c] = 1.0f - FltPtr[c];
+					break;
+				case IL_DOUBLE:
+					DblPtr[c] = 1.0 - DblPtr[c];
+					break;
+			}
 		}
 	}
 
@@ -435,7 +338,7 @@ ILboolean ILAPIENTRY iluNegative()
 ILboolean ILAPIENTRY iluWave(ILfloat Angle)
 {
 	ILint	Delta;
-	ILuint	y;
+	ILuint	y, z, Shift;
 	ILubyte	*DataPtr, *TempBuff;
 
 	iluCurImage = ilGetCurImage();
@@ -444,7 +347,7 @@ ILboolean ILAPIENTRY iluWave(ILfloat Angle)
 		return IL_FALSE;
 	}
 
-	TempBuff = (ILubyte*)ialloc(iluCurImage->SizeOfData);
+	TempBuff = (ILubyte*)ialloc(iluCurImage->Bps);
 	if (TempBuff == NULL) {
 		return IL_FALSE;
 	}
@@ -454,18 +357,17 @@ ILboolean ILAPIENTRY iluWave(ILfloat Angle)
 			(30 * sin((10 * Angle + y) * IL_DEGCONV) +
 			 15 * sin(( 7 * Angle + 3 * y) * IL_DEGCONV));
 
-		DataPtr = iluCurImage->Data + y * iluCurImage->Bps;
-
-		if (Delta < 0) {
-			Delta = -Delta;
-			memcpy(TempBuff, DataPtr, iluCurImage->Bpp * Delta);
-			memcpy(DataPtr, DataPtr + iluCurImage->Bpp * Delta, iluCurImage->Bpp * (iluCurImage->Width - Delta));
-			memcpy(DataPtr + iluCurImage->Bpp * (iluCurImage->Width - Delta), TempBuff, iluCurImage->Bpp * Delta);
-		}
-		else if (Delta > 0) {
-			memcpy(TempBuff, DataPtr, iluCurImage->Bpp * (iluCurImage->Width - Delta));
-			memcpy(DataPtr, DataPtr + iluCurImage->Bpp * (iluCurImage->Width - Delta), iluCurImage->Bpp * Delta);
-			memcpy(DataPtr + iluCurImage->Bpp * Delta, TempBuff, iluCurImage->Bpp * (iluCurImage->Width - Delta));
+		// Each row is turned around its width, to the right if Delta is positive.
+		Shift = (Delta < 0 ? -Delta : Delta) % iluCurImage->Width;
+		if (Delta < 0)
+			Shift = (iluCurImage->Width - Shift) % iluCurImage->Width;
+		Shift *= iluCurImage->Bpp * iluCurImage->Bpc;
+
+		for (z = 0; z < iluCurImage->Depth; z++) {
+			DataPtr = iluCurImage->Data + z * iluCurImage->SizeOfPlane + y * iluCurImage->Bps;
+			memcpy(TempBuff, DataPtr, iluCurImage->Bps);
+			memcpy(DataPtr + Shift, TempBuff, iluCurImage->Bps - Shift);
+			memcpy(DataPtr, TempBuff + iluCurImage->Bps - Shift, Shift);
 		}
 	}
 
@@ -487,8 +389,8 @@ ILboolean ILAPIENTRY iluSwapColours() {
 		return IL_FALSE;
 	}
 
-	if (iluCurImage->Bpp == 1) {
-		if (ilGetBppPal(iluCurImage->Pal.PalType) == 0 || iluCurImage->Format != IL_COLOUR_INDEX) {
+	if (img->Bpp == 1) {
+		if (ilGetBppPal(img->Pal.PalType) == 0 || img->Format != IL_COLOUR_INDEX) {
 			ilSetError(ILU_ILLEGAL_OPERATION);  // Can be luminance.
 			return IL_FALSE;
 		}
@@ -528,21 +430,19 @@ ILboolean ILAPIENTRY iluSwapColours() {
 }
 
 
-typedef struct BUCKET { ILubyte Colours[4];  struct BUCKET *Next; } BUCKET;
+// Bytes of a pixel of the current image, for the comparison below
+static ILuint iPixelSize = 0;
+
+static int iComparePixels(const void *First, const void *Second)
+{
+	return memcmp(First, Second, iPixelSize);
+}
+
 
 ILuint ILAPIENTRY iluColoursUsed()
 {
-	ILuint i, c, Bpp, ColVal, SizeData, BucketPos = 0, NumCols = 0;
-	BUCKET Buckets[8192], *Temp;
-	ILubyte ColTemp[4];
-	ILboolean Matched;
-	BUCKET *Heap[9];
-	ILuint HeapPos = 0, HeapPtr = 0, HeapSize;
-
-	imemclear(Buckets, sizeof(BUCKET) * 8192);
-	for (c = 0; c < 9; c++) {
-		Heap[c] = 0;
-	}
+	ILuint	i, NumCols;
+	ILubyte	*Data;
 
 	iluCurImage = ilGetCurImage();
 	if (iluCurImage == NULL) {
@@ -550,117 +450,44 @@ ILuint ILAPIENTRY iluColoursUsed()
 		return 0;
 	}
 
-	Bpp = iluCurImage->Bpp;
-	SizeData = iluCurImage->SizeOfData;
-
-	// Create our miniature memory heap.
-	// I have determined that the average number of colours versus
-	//	the number of pixels is about a 1:8 ratio, so divide by 8.
-	HeapSize = IL_MAX(1, iluCurImage->SizeOfData / iluCurImage->Bpp / 8);
-	Heap[0] = (BUCKET*)ialloc(HeapSize * sizeof(BUCKET));
-	if (Heap[0] == NULL)
-		return IL_FALSE;
-
-	for (i = 0; i < SizeData; i += Bpp) {
-		*(ILuint*)ColTemp = 0;
-		/*for (c = 0; c < Bpp; c++) {
-			ColTemp[c] = iluCurImage->Data[i + c];
-		}*/
-		ColTemp[0] = iluCurImage->Data[i];
-		if (Bpp > 1) {
-			ColTemp[1] = iluCurImage->Data[i + 1];
-			ColTemp[2] = iluCurImage->Data[i + 2];
-		}
-		if (Bpp > 3)
-			ColTemp[3] = iluCurImage->Data[i + 3];
+	Data = (ILubyte*)ialloc(iluCurImage->SizeOfData);
+	if (Data == NULL)
+		return 0;
+	memcpy(Data, iluCurImage->Data, iluCurImage->SizeOfData);
 
-		BucketPos = *(ILuint*)ColTemp % 8192;
+	iPixelSize = iluCurImage->Bpp * iluCurImage->Bpc;
+	qsort(Data, iluCurImage->SizeOfData / iPixelSize, iPixelSize, iComparePixels);
 
-		// Add to hash table
-		if (Buckets[BucketPos].Next == NULL) {
+	NumCols = 1;
+	for (i = iPixelSize; i < iluCurImage->SizeOfData; i += iPixelSize) {
+		if (memcmp(Data + i - iPixelSize, Data + i, iPixelSize))
 			NumCols++;
-			//Buckets[BucketPos].Next = (BUCKET*)ialloc(sizeof(BUCKET));
-			Buckets[BucketPos].Next = Heap[HeapPos] + HeapPtr++;
-			if (HeapPtr >= HeapSize) {
-				Heap[++HeapPos] = (BUCKET*)ialloc(HeapSize * sizeof(BUCKET));
-				if (Heap[HeapPos] == NULL)
-					goto alloc_error;
-				HeapPtr = 0;
-			}
-			*(ILuint*)Buckets[BucketPos].Next->Colours = *(ILuint*)ColTemp;
-			Buckets[BucketPos].Next->Next = NULL;
-		}
-		else {
-			Matched = IL_FALSE;
-			Temp = Buckets[BucketPos].Next;
-
-			ColVal = *(ILuint*)ColTemp;
-			while (Temp->Next != NULL) {
-				if (ColVal == *(ILuint*)Temp->Colours) {
-					Matched = IL_TRUE;
-					break;
-				}
-				Temp = Temp->Next;
-			}
-			if (!Matched) {
-				if (ColVal != *(ILuint*)Temp->Colours) {  // Check against last entry
-					NumCols++;
-					Temp = Buckets[BucketPos].Next;
-					//Buckets[BucketPos].Next = (BUCKET*)ialloc(sizeof(BUCKET));
-					Buckets[BucketPos].Next = Heap[HeapPos] + HeapPtr++;
-					if (HeapPtr >= HeapSize) {
-						Heap[++HeapPos] = (BUCKET*)ialloc(HeapSize * sizeof(BUCKET));
-						if (Heap[HeapPos] == NULL)
-							goto alloc_error;
-						HeapPtr = 0;
-					}
-					Buckets[BucketPos].Next->Next = Temp;
-					*(ILuint*)Buckets[BucketPos].Next->Colours = *(ILuint*)ColTemp;
-				}
-			}
-		}
 	}
 
-	// Delete our mini heap.
-	for (i = 0; i < 9; i++) {
-		if (Heap[i] == NULL)
-			break;
-		ifree(Heap[i]);
-	}
+	ifree(Data);
 
 	return NumCols;
-
-alloc_error:
-	for (i = 0; i < 9; i++) {
-		ifree(Heap[i]);
-	}
-
-	return 0;
 }
 
 
 ILboolean ILAPIENTRY iluCompareImage(ILuint Comp)
 {
 	ILimage		*Original;
-	ILuint		OrigName, i;
-	ILboolean	Same = IL_TRUE;
+	ILuint		OrigName;
 
 	iluCurImage = ilGetCurImage();
 	OrigName = ilGetCurName();
 
-	// Same image, so return true.
-	if (ilGetCurName() == Comp)
-		return IL_TRUE;
-
-	if (iluCurImage == NULL || ilIsImage(Comp) == IL_FALSE) {
+	if (iluCurImage == NULL || (Comp != 0 && ilIsImage(Comp) == IL_FALSE)) {
 		ilSetError(ILU_ILLEGAL_OPERATION);
-		return 0;
+		return IL_FALSE;
 	}
 
 	ilBindImage(Comp);
-    Original = ilGetCurImage();
+	Original = ilGetCurImage();
+	ilBindImage(OrigName);
+	ilSetCurImage(iluCurImage);  // Could be a subimage
 
-	// @TODO:  Should we check palettes, too?
 	if (Original->Bpp != iluCurImage->Bpp       ||
 		Original->Depth != iluCurImage->Depth   ||
 		Original->Format != iluCurImage->Format ||
@@ -668,19 +495,18 @@ ILboolean ILAPIENTRY iluCompareImage(ILuint Comp)
 		Original->Origin != iluCurImage->Origin ||
 		Original->Type != iluCurImage->Type ||
 		Original->Width != iluCurImage->Width) {
-			ilBindImage(OrigName);
 			return IL_FALSE;
 	}
 
-	for (i = 0; i < iluCurImage->SizeOfData; i++) {
-		if (Original->Data[i] != iluCurImage->Data[i]) {
-			Same = IL_FALSE;
-			break;
-		}
+	// Indices mean nothing without their palette.
+	if (iluCurImage->Format == IL_COLOUR_INDEX) {
+		if (Original->Pal.PalType != iluCurImage->Pal.PalType || Original->Pal.PalSize != iluCurImage->Pal.PalSize)
+			return IL_FALSE;
+		if (iluCurImage->Pal.Palette != NULL && memcmp(Original->Pal.Palette, iluCurImage->Pal.Palette, iluCurImage->Pal.PalSize))
+			return IL_FALSE;
 	}
 
-	ilBindImage(OrigName);
-	return Same;
+	return memcmp(Original->Data, iluCurImage->Data, iluCurImage->SizeOfData) == 0;
 }
 
 
@@ -689,7 +515,7 @@ ILboolean ILAPIENTRY iluReplaceColour(ILubyte Red, ILubyte Green, ILubyte Blue,
 {
 	ILubyte	ClearCol[4];
 	ILint	TolVal, Distance, Dist1, Dist2, Dist3;
-	ILuint	i, NumPix;
+	ILuint	i;
 
 	iluCurImage = ilGetCurImage();
 	if (iluCurImage == NULL) {
@@ -697,11 +523,16 @@ ILboolean ILAPIENTRY iluReplaceColour(ILubyte Red, ILubyte Green, ILubyte Blue,
 		return 0;
 	}
 
+	// @TODO:  Change to work with other types!
+	if (iluCurImage->Bpc > 1) {
+		ilSetError(ILU_INTERNAL_ERROR);
+		return IL_FALSE;
+	}
+
 	ilGetClear(ClearCol, IL_RGBA, IL_UNSIGNED_BYTE);
 	if (Tolerance > 1.0f || Tolerance < -1.0f)
 		Tolerance = 1.0f;  // Clamp it.
 	TolVal = (ILuint)(fabs(Tolerance) * UCHAR_MAX);  // To be changed.
-	NumPix = iluCurImage->Width * iluCurImage->Height * iluCurImage->Depth;
 
 	if (Tolerance <= FLT_EPSILON && Tolerance >= 0) {
  			
@@ -727,9 +558,9 @@ ILboolean ILAPIENTRY iluReplaceColour(ILubyte Red, ILubyte Green, ILubyte Blue,
 			case IL_BGR:
 			case IL_BGRA:
 				for (i = 0; i < iluCurImage->SizeOfData; i += iluCurImage->Bpp) {
-					Dist1 = (ILint)iluCurImage->Data[i] - (ILint)ClearCol[0];
+					Dist1 = (ILint)iluCurImage->Data[i] - (ILint)ClearCol[2];
 					Dist2 = (ILint)iluCurImage->Data[i+1] - (ILint)ClearCol[1];
-					Dist3 = (ILint)iluCurImage->Data[i+2] - (ILint)ClearCol[2];
+					Dist3 = (ILint)iluCurImage->Data[i+2] - (ILint)ClearCol[0];
 					Distance = (ILint)sqrt((float)(Dist1 * Dist1 + Dist2 * Dist2 + Dist3 * Dist3));
 					if (Distance >= -TolVal && Distance <= TolVal) {
 						iluCurImage->Data[i+2] = Red;
@@ -787,6 +618,10 @@ ILboolean ILAPIENTRY iluEqualize() {
 	}
 
 	if (iluCurImage->Format == IL_COLOUR_INDEX) {
+		if (iluCurImage->Pal.Palette == NULL || ilGetBppPal(iluCurImage->Pal.PalType) == 0) {
+			ilSetError(ILU_ILLEGAL_OPERATION);
+			return IL_FALSE;
+		}
 		NumPixels = iluCurImage->Pal.PalSize / ilGetBppPal(iluCurImage->Pal.PalType);
 		Bpp = ilGetBppPal(iluCurImage->Pal.PalType);
 	} else {
@@ -798,7 +633,23 @@ ILboolean ILAPIENTRY iluEqualize() {
 	imemclear(Histogram, 256 * sizeof(ILuint));
 	imemclear(SumHistm,  256 * sizeof(ILuint));
 
-	LumImage = iConvertImage(iluCurImage, IL_LUMINANCE, IL_UNSIGNED_BYTE); // the type must be left as it is!
+	if (NumPixels == 0) {
+		ilSetError(ILU_ILLEGAL_OPERATION);
+		return IL_FALSE;
+	}
+
+	if (iluCurImage->Format == IL_COLOUR_INDEX) {
+		// One pixel for each entry of the palette
+		LumImage = ilNewImageFull(NumPixels, 1, 1, (ILubyte)Bpp, ilGetPalBaseType(iluCurImage->Pal.PalType), IL_UNSIGNED_BYTE, NULL);
+		if (LumImage != NULL) {
+			ILimage *PalImage = LumImage;
+			memcpy(PalImage->Data, iluCurImage->Pal.Palette, NumPixels * Bpp);
+			LumImage = iConvertImage(PalImage, IL_LUMINANCE, IL_UNSIGNED_BYTE);
+			ilCloseImage(PalImage);
+		}
+	}
+	else
+		LumImage = iConvertImage(iluCurImage, IL_LUMINANCE, IL_UNSIGNED_BYTE); // the type must be left as it is!
 	if (LumImage == NULL)
 		return IL_FALSE;
 	for (i = 0; i < NumPixels; i++) {
@@ -810,7 +661,7 @@ ILboolean ILAPIENTRY iluEqualize() {
 		for (j = 0; j < i; j++)
 			Sum += Histogram[j];
 
-		SumHistm[i] = (Sum << 8) / NumPixels;
+		SumHistm[i] = (ILuint)(((ILuint64)Sum << 8) / NumPixels);
 		Sum = 0;
 	}
 
@@ -827,16 +678,16 @@ ILboolean ILAPIENTRY iluEqualize() {
 		IntensityNew = (ILint)SumHistm[Intensity];
 
 		// Find out by how much the intensity has been Scaled
-		Scale = (ILfloat)IntensityNew / (ILfloat)Intensity;
+		Scale = Intensity ? (ILfloat)IntensityNew / (ILfloat)Intensity : 0.0f;
 
 		switch (iluCurImage->Bpc)
 		{
 			case 1:
 				// Calculate new pixel(s)
-				NewColour[0] = (ILuint)(BytePtr[i * iluCurImage->Bpp] * Scale);
+				NewColour[0] = (ILuint)(BytePtr[i * Bpp] * Scale);
 				if (Bpp >= 3) {
-					NewColour[1] = (ILuint)(BytePtr[i * iluCurImage->Bpp + 1] * Scale);
-					NewColour[2] = (ILuint)(BytePtr[i * iluCurImage->Bpp + 2] * Scale);
+					NewColour[1] = (ILuint)(BytePtr[i * Bpp + 1] * Scale);
+					NewColour[2] = (ILuint)(BytePtr[i * Bpp + 2] * Scale);
 				}
 
 				// Clamp values
@@ -850,10 +701,10 @@ ILboolean ILAPIENTRY iluEqualize() {
 				}
 
 				// Store pixel(s)
-				BytePtr[i * iluCurImage->Bpp] = (ILubyte)NewColour[0];
+				BytePtr[i * Bpp] = (ILubyte)NewColour[0];
 				if (Bpp >= 3) {
-					BytePtr[i * iluCurImage->Bpp + 1]	= (ILubyte)NewColour[1];
-					BytePtr[i * iluCurImage->Bpp + 2]	= (ILubyte)NewColour[2];
+					BytePtr[i * Bpp + 1]	= (ILubyte)NewColour[1];
+					BytePtr[i * Bpp + 2]	= (ILubyte)NewColour[2];
 				}
 				break;
 
@@ -928,7 +779,7 @@ ILboolean ILAPIENTRY iluEqualize2(void)
 	// Start of the Modified Von Kries hypothesis
 
 	ILdouble ChanAvgs[3] = { 0.0, 0.0, 0.0 };
-	ILuint NumPix = iluCurImage->Width * iluCurImage->Height;
+	ILuint NumPix = iluCurImage->Width * iluCurImage->Height * iluCurImage->Depth;
 	if (NumPix < 1) {
 		ilSetError(IL_INTERNAL_ERROR);
 		return IL_FALSE;
@@ -966,7 +817,7 @@ ILboolean ILAPIENTRY iluEqualize2(void)
 
 	if (ChanAvgsCopy[0] < 1.0 || ChanAvgsCopy[2] < 1.0) {
 		// This prevents division by 0 - could possibly be lowered less than 1
-		//ilSetError(IL_INTERNAL_ERROR);
+		ilSetError(ILU_ILLEGAL_OPERATION);
 		return IL_FALSE;
 	}
 
@@ -1006,6 +857,8 @@ ILboolean ILAPIENTRY iluEqualize2(void)
 	for (ILuint c = 0; c < 3; c++) {
 		if ((MaxVals[c] - MinVals[c]) < 1.0) {
 			// This is the case if an image is a solid color. The original image is unmodified.
+			ifree(Corrected);
+			ilSetError(ILU_ILLEGAL_OPERATION);
 			return IL_FALSE;
 		}
 	}
diff --git a/DevIL/src-ILU/src/ilu_mipmap.cpp b/DevIL/src-ILU/src/ilu_mipmap.cpp
index 94efbf5..42c6509 100644
--- a/DevIL/src-ILU/src/ilu_mipmap.cpp
+++ b/DevIL/src-ILU/src/ilu_mipmap.cpp
@@ -35,9 +35,7 @@ ILboolean iBuildMipmaps(ILimage *Parent, ILuint Width, ILuint Height, ILuint Dep
 	if (Parent->Mipmaps == NULL)
 		return IL_FALSE;
 
-	iBuildMipmaps(Parent->Mipmaps, Parent->Mipmaps->Width >> 1, Parent->Mipmaps->Height >> 1, Parent->Mipmaps->Depth >> 1);
-
-	return IL_TRUE;
+	return iBuildMipmaps(Parent->Mipmaps, Parent->Mipmaps->Width >> 1, Parent->Mipmaps->Height >> 1, Parent->Mipmaps->Depth >> 1);
 }
 
 
diff --git a/DevIL/src-ILU/src/ilu_region.cpp b/DevIL/src-ILU/src/ilu_region.cpp
index 4824c14..8d3fb15 100644
--- a/DevIL/src-ILU/src/ilu_region.cpp
+++ b/DevIL/src-ILU/src/ilu_region.cpp
@@ -19,25 +19,36 @@ ILpointf	*RegionPointsf = NULL;
 ILuint		PointNum = 0;
 ILubyte		*iRegionMask = NULL;
 
+// Forgets the current region.
+static void iFreeRegion()
+{
+	ifree(RegionPointsi);
+	ifree(RegionPointsf);
+	RegionPointsi = NULL;
+	RegionPointsf = NULL;
+	PointNum = 0;
+	return;
+}
+
+
 void ILAPIENTRY iluRegionfv(ILpointf *Points, ILuint n)
 {
+	ILpointf *NewPoints;
+
 	if (Points == NULL || n == 0) {
-		ifree(RegionPointsi);
-		ifree(RegionPointsf);
-		RegionPointsf = NULL;
-		PointNum = 0;
+		iFreeRegion();
 		return;
 	}
 	if (n < 3) {
 		ilSetError(ILU_INVALID_PARAM);
 		return;
 	}
-	ifree(RegionPointsi);
-	ifree(RegionPointsf);
-	RegionPointsf = (ILpointf*)ialloc(sizeof(ILpointf) * n);
-	if (RegionPointsf == NULL)
+	NewPoints = (ILpointf*)ialloc(sizeof(ILpointf) * n);
+	if (NewPoints == NULL)
 		return;
-	memcpy(RegionPointsf, Points, sizeof(ILpointi) * n);
+	memcpy(NewPoints, Points, sizeof(ILpointf) * n);
+	iFreeRegion();
+	RegionPointsf = NewPoints;
 	PointNum = n;
 	return;
 }
@@ -45,260 +56,131 @@ void ILAPIENTRY iluRegionfv(ILpointf *Points, ILuint n)
 
 void ILAPIENTRY iluRegioniv(ILpointi *Points, ILuint n)
 {
+	ILpointi *NewPoints;
+
 	if (Points == NULL || n == 0) {
-		ifree(RegionPointsi);
-		ifree(RegionPointsf);
-		RegionPointsi = NULL;
-		PointNum = 0;
+		iFreeRegion();
 		return;
 	}
 	if (n < 3) {
 		ilSetError(ILU_INVALID_PARAM);
 		return;
 	}
-	ifree(RegionPointsi);
-	ifree(RegionPointsf);
-	RegionPointsi = (ILpointi*)ialloc(sizeof(ILpointi) * n);
-	if (RegionPointsi == NULL)
+	NewPoints = (ILpointi*)ialloc(sizeof(ILpointi) * n);
+	if (NewPoints == NULL)
 		return;
-	memcpy(RegionPointsi, Points, sizeof(ILpointi) * n);
+	memcpy(NewPoints, Points, sizeof(ILpointi) * n);
+	iFreeRegion();
+	RegionPointsi = NewPoints;
 	PointNum = n;
 	return;
 }
 
 
-// Inserts edge into list in order of increasing xIntersect field.
-void InsertEdge(Edge *list, Edge *edge)
-{
-	Edge *p, *q = list;
-
-	p = q->next;
-	while (p != NULL) {
-		if (edge->xIntersect < p->xIntersect) {
-			p = NULL;
-		}
-		else {
-			q = p;
-			p = p->next;
-		}
-	}
-	edge->next = q->next;
-	q->next = edge;
-}
-
-
-// For an index, return y-coordinate of next nonhorizontal line
-ILint yNext(ILint k, ILint cnt, ILpointi *pts)
+// Returns point k of the region in pixels of the current image.
+static ILpointi iRegionPoint(ILuint k)
 {
-	ILint j;
-
-	if ((k+1) > (cnt-1))
-		j = 0;
-	else
-		j = k + 1;
-
-	while (pts[k].y == pts[j].y) {
-		if ((j+1) > (cnt-1))
-			j = 0;
-		else
-			j++;
-	}
-
-	return pts[j].y;
-}
+	ILpointi	Point;
+	ILfloat		x, y;
 
-
-// Store lower-y coordinate and inverse slope for each edge.  Adjust
-//	and store upper-y coordinate for edges that are the lower member
-//	of a monotonically increasing or decreasing pair of edges
-void MakeEdgeRec(ILpointi lower, ILpointi upper, ILint yComp, Edge *edge, Edge *edges[])
-{
-	edge->dxPerScan = (ILfloat)(upper.x - lower.x) / (upper.y - lower.y);
-	edge->xIntersect = (ILfloat)lower.x;
-	if (upper.y < yComp)
-		edge->yUpper = upper.y - 1;
-	else
-		edge->yUpper = upper.y;
-
-	InsertEdge(edges[lower.y], edge);
+	if (RegionPointsf == NULL)
+		return RegionPointsi[k];
+
+	x = iluCurImage->Width  * RegionPointsf[k].x;
+	y = iluCurImage->Height * RegionPointsf[k].y;
+	// Also keeps values that no integer can hold away from the conversion
+	Point.x = (x > -1e9f) ? (ILint)IL_MIN(x, 1e9f) : -1000000000;
+	Point.y = (y > -1e9f) ? (ILint)IL_MIN(y, 1e9f) : -1000000000;
+	return Point;
 }
 
 
-void BuildEdgeList(ILuint cnt, ILpointi *pts, Edge **edges)
+// Returns the y coordinate of the first point from k on in direction Step that is not at height y.
+static ILint yNext(ILuint k, ILuint Step, ILint y)
 {
-	Edge *edge;
-	ILpointi v1, v2;
-	ILuint i;
-	ILint yPrev = pts[cnt - 2].y;
-
-	v1.x = pts[cnt-1].x;
-	v1.y = pts[cnt-1].y;
+	ILuint	i;
+	ILint	Next = y;
 
-	for (i = 0; i < cnt; i++) {
-		v2 = pts[i];
-		if (v1.y != v2.y) {			// nonhorizontal line
-			edge = (Edge*)ialloc(sizeof(Edge));
-			if (v1.y < v2.y) {		// up-going edge
-				MakeEdgeRec(v1, v2, yNext(i, cnt, pts), edge, edges);
-			}
-			else {					// down-going edge
-				MakeEdgeRec(v2, v1, yPrev, edge, edges);
-			}
-		}
-		yPrev = v1.y;
-		v1 = v2;
+	for (i = 0; i < PointNum && Next == y; i++) {
+		k = (k + Step) % PointNum;
+		Next = iRegionPoint(k).y;
 	}
-}
 
-
-void BuildActiveList(ILint scan, Edge *active, Edge *edges[])
-{
-	Edge *p, *q;
-
-	p = edges[scan]->next;
-	while (p) {
-		q = p->next;
-		InsertEdge(active, p);
-		p = q;
-	}
+	return Next;
 }
 
 
-#define iRegionSetPixel(x,y) (iRegionMask[y * iluCurImage->Width + x] = 1 )
-
-
-void FillScan(ILint scan, Edge *active)
+// Finds the edges that cross row Scan, sorted from left to right.  An edge that goes on upwards
+//	in the next one leaves its last row to that one.
+static ILuint iRowEdges(ILint Scan, ILdouble *Cross)
 {
-	Edge *p1, *p2;
-	ILint i;
+	ILuint		i, j, Num = 0;
+	ILpointi	v1, v2, Lower, Upper;
+	ILint		yNeighbour;
+	ILdouble	x;
 
-	p1 = active->next;
-	while (p1) {
-		p2 = p1->next;
-		for (i = (ILuint)p1->xIntersect; i < p2->xIntersect; i++) {
-			iRegionSetPixel((ILuint)i, scan);
+	for (i = 0; i < PointNum; i++) {
+		v1 = iRegionPoint((i + PointNum - 1) % PointNum);
+		v2 = iRegionPoint(i);
+		if (v1.y == v2.y)  // horizontal line
+			continue;
+		Lower = (v1.y < v2.y) ? v1 : v2;
+		Upper = (v1.y < v2.y) ? v2 : v1;
+		if (Scan < Lower.y || Scan > Upper.y)
+			continue;
+		if (Scan == Upper.y) {
+			if (v1.y < v2.y)
+				yNeighbour = yNext(i, 1, v2.y);
+			else
+				yNeighbour = yNext((i + PointNum - 1) % PointNum, PointNum - 1, v1.y);
+			if (yNeighbour > Upper.y)
+				continue;
 		}
-		p1 = p2->next;
-	}
-}
-
-
-void DeleteAfter(Edge *q)
-{
-	Edge *p = q->next;
-	q->next = p->next;
-	free(p);
-}
-
 
-// Delete completed edges.  Update 'xIntersect' field for others
-void UpdateActiveList(ILint scan, Edge *active)
-{
-	Edge *q = active, *p = active->next;
-
-	while (p) {
-		if (scan >= p->yUpper) {
-			p = p->next;
-			DeleteAfter(q);
-		}
-		else {
-			p->xIntersect = p->xIntersect + p->dxPerScan;
-			q = p;
-			p = p->next;
-		}
+		x = Lower.x + ((ILdouble)Scan - Lower.y) * ((ILdouble)Upper.x - Lower.x) / ((ILdouble)Upper.y - Lower.y);
+		for (j = Num++; j > 0 && Cross[j-1] > x; j--)
+			Cross[j] = Cross[j-1];
+		Cross[j] = x;
 	}
-}
 
-
-void ResortActiveList(Edge *active)
-{
-	Edge *q, *p = active->next;
-
-	active->next = NULL;
-	while (p) {
-		q = p->next;
-		InsertEdge(active, p);
-		p = q;
-	}
+	return Num;
 }
 
 
+// Returns a mask with 1 for every pixel inside the region, or NULL if there is no region.
 ILubyte *iScanFill()
 {
-	Edge	**edges = NULL, *active = NULL/*, *temp*/;
-	ILuint	i, scan;
+	ILdouble	*Cross;
+	ILuint		i, Num, x, Scan, First, Last;
 
 	iRegionMask = NULL;
 
 	if ((RegionPointsi == NULL && RegionPointsf == NULL) || PointNum == 0)
 		return NULL;
 
-	if (RegionPointsf) {
-		RegionPointsi = (ILpointi*)ialloc(sizeof(ILpointi) * PointNum);
-		if (RegionPointsi == NULL)
-			goto error;
-	}
-
-	for (i = 0; i < PointNum; i++) {
-		if (RegionPointsf) {
-			RegionPointsi[i].x = (ILuint)(iluCurImage->Width * RegionPointsf[i].x);
-			RegionPointsi[i].y = (ILuint)(iluCurImage->Height * RegionPointsf[i].y);
-		}
-		if (RegionPointsi[i].x >= (ILint)iluCurImage->Width || RegionPointsi[i].y >= (ILint)iluCurImage->Height)
-			goto error;
-	}
-
-	edges = (Edge**)ialloc(sizeof(Edge*) * iluCurImage->Height);
+	Cross = (ILdouble*)ialloc(sizeof(ILdouble) * PointNum);
 	iRegionMask = (ILubyte*)ialloc(iluCurImage->Width * iluCurImage->Height * iluCurImage->Depth);
-	if (edges == NULL || iRegionMask == NULL)
-		goto error;
-	imemclear(iRegionMask, iluCurImage->Width * iluCurImage->Height * iluCurImage->Depth);
-
-	for (i = 0; i < iluCurImage->Height; i++) {
-		edges[i] = (Edge*)ialloc(sizeof(Edge));
-		edges[i]->next = NULL;
+	if (Cross == NULL || iRegionMask == NULL) {
+		ifree(Cross);
+		ifree(iRegionMask);
+		iRegionMask = NULL;
+		return NULL;
 	}
-	BuildEdgeList(PointNum, RegionPointsi, edges);
-	active = (Edge*)ialloc(sizeof(Edge));
-	active->next = NULL;
+	imemclear(iRegionMask, iluCurImage->Width * iluCurImage->Height * iluCurImage->Depth);
 
-	for (scan = 0; scan < iluCurImage->Height; scan++) {
-		BuildActiveList(scan, active, edges);
-		if (active->next) {
-			FillScan(scan, active);
-			UpdateActiveList(scan, active);
-			ResortActiveList(active);
+	for (Scan = 0; Scan < iluCurImage->Height; Scan++) {
+		Num = iRowEdges((ILint)Scan, Cross);
+		for (i = 0; i + 1 < Num; i += 2) {
+			if (Cross[i+1] <= 0 || Cross[i] >= iluCurImage->Width)
+				continue;
+			First = (Cross[i] > 0) ? (ILuint)Cross[i] : 0;
+			Last  = (ILuint)ceil(IL_MIN(Cross[i+1], (ILdouble)iluCurImage->Width));
+			for (x = First; x < Last; x++)
+				iRegionMask[Scan * iluCurImage->Width + x] = 1;
 		}
 	}
 
-	// Free edge records that have been allocated.
-	/*for (i = 0; i < iluCurImage->Height; i++) {
-		while (edges[i]) {
-			temp = edges[i]->next;
-			ifree(edges[i]);
-			edges[i] = temp;
-		}
-	}*/
-
-	ifree(edges);
-
-	if (RegionPointsf) {
-		ifree(RegionPointsi);
-		RegionPointsi = NULL;
-	}
+	ifree(Cross);
 
 	return iRegionMask;
-
-error:
-	if (RegionPointsf) {
-		ifree(RegionPointsi);
-		RegionPointsi = NULL;
-	}
-
-	// Free edge records that have been allocated.
-
-	ifree(edges);
-	ifree(iRegionMask);
-	return NULL;
 }
-
diff --git a/DevIL/src-ILU/src/ilu_rotate.cpp b/DevIL/src-ILU/src/ilu_rotate.cpp
index c688622..4961c3b 100644
--- a/DevIL/src-ILU/src/ilu_rotate.cpp
+++ b/DevIL/src-ILU/src/ilu_rotate.cpp
@@ -13,12 +13,13 @@
 
 #include "ilu_internal.h"
 #include "ilu_states.h"
+#include <float.h>
 
 
 ILboolean ILAPIENTRY iluRotate(ILfloat Angle)
 {
-	ILimage	*Temp, *Temp1, *CurImage = NULL;
-	ILenum	PalType = 0;
+	ILimage	*Temp, *Converted, *Source;
+	ILenum	PalType;
 
 	iluCurImage = ilGetCurImage();
 	if (iluCurImage == NULL) {
@@ -26,39 +27,30 @@ ILboolean ILAPIENTRY iluRotate(ILfloat Angle)
 		return IL_FALSE;
 	}
 
-	if (iluCurImage->Format == IL_COLOUR_INDEX) {
-		PalType = iluCurImage->Pal.PalType;
-		CurImage = iluCurImage;
-		iluCurImage = iConvertImage(iluCurImage, ilGetPalBaseType(CurImage->Pal.PalType), IL_UNSIGNED_BYTE);
+	// Indices can be moved, but the background needs a colour of its own.
+	PalType = iluCurImage->Pal.PalType;
+	Source = iluCurImage;
+	if (iluCurImage->Format == IL_COLOUR_INDEX && fmod((ILdouble)Angle, 90.0) != 0) {
+		Source = iConvertImage(iluCurImage, ilGetPalBaseType(PalType), IL_UNSIGNED_BYTE);
+		if (Source == NULL)
+			return IL_FALSE;
 	}
 
-	Temp = iluRotate_(iluCurImage, Angle);
-	if (Temp != NULL) {
-		if (PalType != 0) {
-			ilCloseImage(iluCurImage);
-			Temp1 = iConvertImage(Temp, IL_COLOUR_INDEX, IL_UNSIGNED_BYTE);
-			ilCloseImage(Temp);
-			Temp = Temp1;
-			ilSetCurImage(CurImage);
-		}
-		ilTexImage(Temp->Width, Temp->Height, Temp->Depth, Temp->Bpp, Temp->Format, Temp->Type, Temp->Data);
-		if (PalType != 0) {
-			iluCurImage = ilGetCurImage();
-			iluCurImage->Pal.PalSize = Temp->Pal.PalSize;
-			iluCurImage->Pal.PalType = Temp->Pal.PalType;
-			iluCurImage->Pal.Palette = (ILubyte*)ialloc(Temp->Pal.PalSize);
-			if (iluCurImage->Pal.Palette == NULL) {
-				ilCloseImage(Temp);
-				return IL_FALSE;
-			}
-			memcpy(iluCurImage->Pal.Palette, Temp->Pal.Palette, Temp->Pal.PalSize);
-		}
-
-		iluCurImage->Origin = Temp->Origin;
+	Temp = iluRotate_(Source, Angle);
+	if (Source != iluCurImage) {
+		ilCloseImage(Source);
+		if (Temp == NULL)
+			return IL_FALSE;
+		Converted = iConvertImage(Temp, IL_COLOUR_INDEX, IL_UNSIGNED_BYTE);
 		ilCloseImage(Temp);
-		return IL_TRUE;
+		Temp = Converted;
 	}
-	return IL_FALSE;
+	if (Temp == NULL)
+		return IL_FALSE;
+
+	iTakeImage(iluCurImage, Temp);
+
+	return IL_TRUE;
 }
 
 
@@ -69,6 +61,10 @@ ILboolean ILAPIENTRY iluRotate3D(ILfloat x, ILfloat y, ILfloat z, ILfloat Angle)
 // return IL_FALSE;
 
 	iluCurImage = ilGetCurImage();
+	if (iluCurImage == NULL) {
+		ilSetError(ILU_ILLEGAL_OPERATION);
+		return IL_FALSE;
+	}
 	Temp = iluRotate3D_(iluCurImage, x, y, z, Angle);
 	if (Temp != NULL) {
 		ilTexImage(Temp->Width, Temp->Height, Temp->Depth, Temp->Bpp, Temp->Format, Temp->Type, Temp->Data);
@@ -86,20 +82,24 @@ ILboolean ILAPIENTRY iluRotate3D(ILfloat x, ILfloat y, ILfloat z, ILfloat Angle)
 ILAPI ILimage* ILAPIENTRY iluRotate_(ILimage *Image, ILfloat Angle)
 {
 	ILimage		*Rotated = NULL;
-	ILint		x, y, c;
+	ILint		x, y;
+	ILuint		z, PixSize;
 	ILdouble	Cos, Sin;
-	ILuint		RotOffset, ImgOffset;
 	ILint		MinX, MinY, MaxX, MaxY;
-	ILushort	*ShortPtr;
-	ILuint		*IntPtr;
-	ILdouble	*DblPtr;
 	ILdouble	Point1x, Point1y, Point2x, Point2y, Point3x, Point3y;
 	ILint		SrcX, SrcY;
 
+	if (!(fabs(Angle) <= FLT_MAX)) {
+		ilSetError(ILU_INVALID_PARAM);
+		return NULL;
+	}
+
 	// Multiples of 90 are special.
 	Angle = (ILfloat)fmod((ILdouble)Angle, 360.0);
 	if (Angle < 0)
 		Angle = 360.0f + Angle;
+	if (Angle >= 360.0f)  // A tiny negative angle
+		Angle = 0.0f;
 
 	Cos = (ILdouble)cos((IL_PI * Angle) / 180.0);
 	Sin = (ILdouble)sin((IL_PI * Angle) / 180.0);
@@ -124,238 +124,43 @@ ILAPI ILimage* ILAPIENTRY iluRotate_(ILimage *Image, ILfloat Angle)
 		return NULL;
 	}
 
-	if (ilResizeImage(Rotated, (ILuint)ceil(fabs(MaxX) - MinX), (ILuint)ceil(fabs(MaxY) - MinY), 1, Image->Bpp, Image->Bpc) == IL_FALSE) {
+	if (ilResizeImage(Rotated, (ILuint)ceil(fabs(MaxX) - MinX), (ILuint)ceil(fabs(MaxY) - MinY), Image->Depth, Image->Bpp, Image->Bpc) == IL_FALSE) {
 		ilCloseImage(Rotated);
-		return IL_FALSE;
+		return NULL;
 	}
 
-	ilClearImage_(Rotated);
-
-	ShortPtr = (ILushort*)iluCurImage->Data;
-	IntPtr = (ILuint*)iluCurImage->Data;
-	DblPtr = (ILdouble*)iluCurImage->Data;
+	// Multiples of 90 leave no background.
+	if (fmod((ILdouble)Angle, 90.0) != 0)
+		ilClearImage_(Rotated);
 
-	//if (iluFilter == ILU_NEAREST) {
-	switch (iluCurImage->Bpc)
-	{
-		case 1:  // Byte-based (most images)
-			if (Angle == 90.0) {
-				for (x = 0; x < (ILint)Image->Width; x++) {
-					for (y = 0; y < (ILint)Image->Height; y++) {
-						RotOffset = x * Rotated->Bps + (Image->Width - 1 - y) * Rotated->Bpp;
-						ImgOffset = y * Image->Bps + x * Image->Bpp;
-						for (c = 0; c < Rotated->Bpp; c++) {
-							Rotated->Data[RotOffset + c] = Image->Data[ImgOffset + c];
-						}
-					} 
-				} 
-			}
-			else if (Angle == 180.0) {
-				for (x = 0; x < (ILint)Image->Width; x++) {
-					for (y = 0; y < (ILint)Image->Height; y++) {
-						RotOffset = (Image->Height - 1 - y) * Rotated->Bps + x * Rotated->Bpp;
-						ImgOffset = y * Image->Bps + x * Image->Bpp;
-						for (c = 0; c < Rotated->Bpp; c++) {
-							Rotated->Data[RotOffset + c] = Image->Data[ImgOffset + c];
-						}
-					} 
-				} 
-			}
-			else if (Angle == 270.0) {
-				for (x = 0; x < (ILint)Image->Width; x++) {
-					for (y = 0; y < (ILint)Image->Height; y++) {
-						RotOffset = (Image->Height - 1 - x) * Rotated->Bps + y * Rotated->Bpp;
-						ImgOffset = y * Image->Bps + x * Image->Bpp;
-						for (c = 0; c < Rotated->Bpp; c++) {
-							Rotated->Data[RotOffset + c] = Image->Data[ImgOffset + c];
-						}
-					} 
-				} 
-			}
-			else {
-				for (x = 0; x < (ILint)Rotated->Width; x++) {
-					for (y = 0; y < (ILint)Rotated->Height; y++) {
-						SrcX = (ILint)((x + MinX) * Cos + (y + MinY) * Sin);
-						SrcY = (ILint)((y + MinY) * Cos - (x + MinX) * Sin);
-						if (SrcX >= 0 && SrcX < (ILint)Image->Width && SrcY >= 0 && SrcY < (ILint)Image->Height) {
-							RotOffset = y * Rotated->Bps + x * Rotated->Bpp;
-							ImgOffset = (ILuint)SrcY * Image->Bps + (ILuint)SrcX * Image->Bpp;
-							for (c = 0; c < Rotated->Bpp; c++) {
-								Rotated->Data[RotOffset + c] = Image->Data[ImgOffset + c];
-							}
-						}
-					}
-				}
-			}
-			break;
+	PixSize = Image->Bpp * Image->Bpc;
 
-		case 2:  // Short-based
-			Image->Bps /= 2;   // Makes it easier to just
-			Rotated->Bps /= 2; //   cast to short.
+	for (z = 0; z < Image->Depth; z++) {
+		ILubyte *Src = Image->Data + z * Image->SizeOfPlane;
+		ILubyte *Dst = Rotated->Data + z * Rotated->SizeOfPlane;
 
-			if (Angle == 90.0) {
-				for (x = 0; x < (ILint)Image->Width; x++) {
-					for (y = 0; y < (ILint)Image->Height; y++) {
-						RotOffset = x * Rotated->Bps + (Image->Width - 1 - y) * Rotated->Bpp;
-						ImgOffset = y * Image->Bps + x * Image->Bpp;
-						for (c = 0; c < Rotated->Bpp; c++) {
-							((ILushort*)(Rotated->Data))[RotOffset + c] = ShortPtr[ImgOffset + c];
-						}
-					} 
-				} 
-			}
-			else if (Angle == 180.0) {
-				for (x = 0; x < (ILint)Image->Width; x++) {
-					for (y = 0; y < (ILint)Image->Height; y++) {
-						RotOffset = (Image->Height - 1 - y) * Rotated->Bps + x * Rotated->Bpp;
-						ImgOffset = y * Image->Bps + x * Image->Bpp;
-						for (c = 0; c < Rotated->Bpp; c++) {
-							((ILushort*)(Rotated->Data))[RotOffset + c] = ShortPtr[ImgOffset + c];
-						}
-					} 
-				} 
-			}
-			else if (Angle == 270.0) {
-				for (x = 0; x < (ILint)Image->Width; x++) {
-					for (y = 0; y < (ILint)Image->Height; y++) {
-						RotOffset = (Image->Height - 1 - x) * Rotated->Bps + y * Rotated->Bpp;
-						ImgOffset = y * Image->Bps + x * Image->Bpp;
-						for (c = 0; c < Rotated->Bpp; c++) {
-							((ILushort*)(Rotated->Data))[RotOffset + c] = ShortPtr[ImgOffset + c];
-						}
-					} 
-				} 
-			}
-			else {
-				for (x = 0; x < (ILint)Rotated->Width; x++) {
-					for (y = 0; y < (ILint)Rotated->Height; y++) {
-						SrcX = (ILint)((x + MinX) * Cos + (y + MinY) * Sin);
-						SrcY = (ILint)((y + MinY) * Cos - (x + MinX) * Sin);
-						if (SrcX >= 0 && SrcX < (ILint)Image->Width && SrcY >= 0 && SrcY < (ILint)Image->Height) {
-							RotOffset = y * Rotated->Bps + x * Rotated->Bpp;
-							ImgOffset = (ILuint)SrcY * Image->Bps + (ILuint)SrcX * Image->Bpp;
-							for (c = 0; c < Rotated->Bpp; c++) {
-								((ILushort*)(Rotated->Data))[RotOffset + c] = ShortPtr[ImgOffset + c];
-							}
-						}
-					}
+		for (y = 0; y < (ILint)Rotated->Height; y++) {
+			for (x = 0; x < (ILint)Rotated->Width; x++) {
+				if (Angle == 90.0) {
+					SrcX = y;
+					SrcY = Image->Height - 1 - x;
 				}
-			}
-			Image->Bps *= 2;
-			Rotated->Bps *= 2;
-			break;
-
-		case 4:  // Floats or 32-bit integers
-			Image->Bps /= 4;
-			Rotated->Bps /= 4;
-
-			if (Angle == 90.0) {
-				for (x = 0; x < (ILint)Image->Width; x++) {
-					for (y = 0; y < (ILint)Image->Height; y++) {
-						RotOffset = x * Rotated->Bps + (Image->Width - 1 - y) * Rotated->Bpp;
-						ImgOffset = y * Image->Bps + x * Image->Bpp;
-						for (c = 0; c < Rotated->Bpp; c++) {
-							((ILuint*)(Rotated->Data))[RotOffset + c] = IntPtr[ImgOffset + c];
-						}
-					} 
-				} 
-			}
-			else if (Angle == 180.0) {
-				for (x = 0; x < (ILint)Image->Width; x++) {
-					for (y = 0; y < (ILint)Image->Height; y++) {
-						RotOffset = (Image->Height - 1 - y) * Rotated->Bps + x * Rotated->Bpp;
-						ImgOffset = y * Image->Bps + x * Image->Bpp;
-						for (c = 0; c < Rotated->Bpp; c++) {
-							((ILuint*)(Rotated->Data))[RotOffset + c] = IntPtr[ImgOffset + c];
-						}
-					} 
-				} 
-			}
-			else if (Angle == 270.0) {
-				for (x = 0; x < (ILint)Image->Width; x++) {
-					for (y = 0; y < (ILint)Image->Height; y++) {
-						RotOffset = (Image->Height - 1 - x) * Rotated->Bps + y * Rotated->Bpp;
-						ImgOffset = y * Image->Bps + x * Image->Bpp;
-						for (c = 0; c < Rotated->Bpp; c++) {
-							((ILuint*)(Rotated->Data))[RotOffset + c] = IntPtr[ImgOffset + c];
-						}
-					} 
-				} 
-			}
-			else {
-				for (x = 0; x < (ILint)Rotated->Width; x++) {
-					for (y = 0; y < (ILint)Rotated->Height; y++) {
-						SrcX = (ILint)((x + MinX) * Cos + (y + MinY) * Sin);
-						SrcY = (ILint)((y + MinY) * Cos - (x + MinX) * Sin);
-						if (SrcX >= 0 && SrcX < (ILint)Image->Width && SrcY >= 0 && SrcY < (ILint)Image->Height) {
-							RotOffset = y * Rotated->Bps + x * Rotated->Bpp;
-							ImgOffset = (ILuint)SrcY * Image->Bps + (ILuint)SrcX * Image->Bpp;
-							for (c = 0; c < Rotated->Bpp; c++) {
-								((ILuint*)(Rotated->Data))[RotOffset + c] = IntPtr[ImgOffset + c];
-							}
-						}
-					}
+				else if (Angle == 180.0) {
+					SrcX = Image->Width - 1 - x;
+					SrcY = Image->Height - 1 - y;
 				}
-			}
-			Image->Bps *= 4;
-			Rotated->Bps *= 4;
-			break;
-
-		case 8:  // Double or 64-bit integers
-			Image->Bps /= 8;
-			Rotated->Bps /= 8;
-
-			if (Angle == 90.0) {
-				for (x = 0; x < (ILint)Image->Width; x++) {
-					for (y = 0; y < (ILint)Image->Height; y++) {
-						RotOffset = x * Rotated->Bps + (Image->Width - 1 - y) * Rotated->Bpp;
-						ImgOffset = y * Image->Bps + x * Image->Bpp;
-						for (c = 0; c < Rotated->Bpp; c++) {
-							((ILdouble*)(Rotated->Data))[RotOffset + c] = DblPtr[ImgOffset + c];
-						}
-					} 
-				} 
-			}
-			else if (Angle == 180.0) {
-				for (x = 0; x < (ILint)Image->Width; x++) { 
-					for (y = 0; y < (ILint)Image->Height; y++) { 
-						RotOffset = (Image->Height - 1 - y) * Rotated->Bps + x * Rotated->Bpp;
-						ImgOffset = y * Image->Bps + x * Image->Bpp;
-						for (c = 0; c < Rotated->Bpp; c++) {
-							((ILdouble*)(Rotated->Data))[RotOffset + c] = DblPtr[ImgOffset + c];
-						}
-					} 
-				} 
-			}
-			else if (Angle == 270.0) {
-				for (x = 0; x < (ILint)Image->Width; x++) {
-					for (y = 0; y < (ILint)Image->Height; y++) {
-						RotOffset = (Image->Height - 1 - x) * Rotated->Bps + y * Rotated->Bpp;
-						ImgOffset = y * Image->Bps + x * Image->Bpp;
-						for (c = 0; c < Rotated->Bpp; c++) {
-							((ILdouble*)(Rotated->Data))[RotOffset + c] = DblPtr[ImgOffset + c];
-						}
-					} 
-				} 
-			}
-			else {
-				for (x = 0; x < (ILint)Rotated->Width; x++) {
-					for (y = 0; y < (ILint)Rotated->Height; y++) {
-						SrcX = (ILint)((x + MinX) * Cos + (y + MinY) * Sin);
-						SrcY = (ILint)((y + MinY) * Cos - (x + MinX) * Sin);
-						if (SrcX >= 0 && SrcX < (ILint)Image->Width && SrcY >= 0 && SrcY < (ILint)Image->Height) {
-							RotOffset = y * Rotated->Bps + x * Rotated->Bpp;
-							ImgOffset = (ILuint)SrcY * Image->Bps + (ILuint)SrcX * Image->Bpp;
-							for (c = 0; c < Rotated->Bpp; c++) {
-								((ILdouble*)(Rotated->Data))[RotOffset + c] = DblPtr[ImgOffset + c];
-							}
-						}
-					}
+				else if (Angle == 270.0) {
+					SrcX = Image->Width - 1 - y;
+					SrcY = x;
 				}
+				else {
+					SrcX = (ILint)((x + MinX) * Cos + (y + MinY) * Sin);
+					SrcY = (ILint)((y + MinY) * Cos - (x + MinX) * Sin);
+				}
+				if (SrcX >= 0 && SrcX < (ILint)Image->Width && SrcY >= 0 && SrcY < (ILint)Image->Height)
+					memcpy(Dst + y * Rotated->Bps + x * PixSize, Src + SrcY * Image->Bps + SrcX * PixSize, PixSize);
 			}
-			Image->Bps *= 8;
-			Rotated->Bps *= 8;
-			break;
+		}
 	}
 
 	return Rotated;
@@ -365,5 +170,6 @@ ILAPI ILimage* ILAPIENTRY iluRotate_(ILimage *Image, ILfloat Angle)
 ILAPI ILimage* ILAPIENTRY iluRotate3D_(ILimage *Image, ILfloat x, ILfloat y, ILfloat z, ILfloat Angle)
 {
 	Image; x; y; z; Angle;
+	ilSetError(ILU_ILLEGAL_OPERATION);  // Not implemented
 	return NULL;
 }
diff --git a/DevIL/src-ILU/src/ilu_scale.cpp b/DevIL/src-ILU/src/ilu_scale.cpp
index b6efaf8..67c6beb 100644
--- a/DevIL/src-ILU/src/ilu_scale.cpp
+++ b/DevIL/src-ILU/src/ilu_scale.cpp
@@ -13,32 +13,41 @@
 
 #include "ilu_internal.h"
 #include "ilu_states.h"
+#include <limits.h>
 
 
 ILboolean ILAPIENTRY iluEnlargeImage(ILfloat XDim, ILfloat YDim, ILfloat ZDim)
 {
-	if (XDim <= 0.0f || YDim <= 0.0f || ZDim <= 0.0f) {
+	ILdouble Width, Height, Depth;
+
+	if (!(XDim > 0.0f && YDim > 0.0f && ZDim > 0.0f)) {
 		ilSetError(ILU_INVALID_PARAM);
 		return IL_FALSE;
 	}
 
 	iluCurImage = ilGetCurImage();
-	return iluScale((ILuint)(iluCurImage->Width * XDim), (ILuint)(iluCurImage->Height * YDim),
-					(ILuint)(iluCurImage->Depth * ZDim));
-}
+	if (iluCurImage == NULL) {
+		ilSetError(ILU_ILLEGAL_OPERATION);
+		return IL_FALSE;
+	}
 
+	Width  = iluCurImage->Width  * XDim;
+	Height = iluCurImage->Height * YDim;
+	Depth  = iluCurImage->Depth  * ZDim;
+	if (Width > UINT_MAX || Height > UINT_MAX || Depth > UINT_MAX) {
+		ilSetError(ILU_INVALID_PARAM);
+		return IL_FALSE;
+	}
 
-ILimage *iluScale1D_(ILimage *Image, ILimage *Scaled, ILuint Width);
-ILimage *iluScale2D_(ILimage *Image, ILimage *Scaled, ILuint Width, ILuint Height);
-ILimage *iluScale3D_(ILimage *Image, ILimage *Scaled, ILuint Width, ILuint Height, ILuint Depth);
+	return iluScale((ILuint)Width, (ILuint)Height, (ILuint)Depth);
+}
 
 
 ILboolean ILAPIENTRY iluScale(ILuint Width, ILuint Height, ILuint Depth)
 {
-	ILimage		*Temp;
-	ILboolean	UsePal;
+	ILimage		*Temp, *Converted;
 	ILenum		PalType;
-	ILenum		Origin;
+	ILpal		*NewPal;
 
 	iluCurImage = ilGetCurImage();
 	if (iluCurImage == NULL) {
@@ -46,14 +55,14 @@ ILboolean ILAPIENTRY iluScale(ILuint Width, ILuint Height, ILuint Depth)
 		return IL_FALSE;
 	}
 
-	if (iluCurImage->Width == Width && iluCurImage->Height == Height && iluCurImage->Depth == Depth)
-		return IL_TRUE;
-
 	// A parameter of 0 is not valid.  Let's just assume that the user wanted a value of 1 instead.
 	if (Width == 0)  Width = 1;
 	if (Height == 0) Height = 1;
 	if (Depth == 0)  Depth = 1;
 
+	if (iluCurImage->Width == Width && iluCurImage->Height == Height && iluCurImage->Depth == Depth)
+		return IL_TRUE;
+
 	if ((iluCurImage->Width<Width) || (iluCurImage->Height<Height)) // only do special scale if there is some zoom?
 	{
 		switch (iluFilter)
@@ -65,243 +74,195 @@ ILboolean ILAPIENTRY iluScale(ILuint Width, ILuint Height, ILuint Depth)
 			case ILU_SCALE_LANCZOS3:
 			case ILU_SCALE_MITCHELL:
 
-				iluCurImage = ilGetCurImage();
-				if (iluCurImage == NULL) {
-					ilSetError(ILU_ILLEGAL_OPERATION);
-					return IL_FALSE;
-				}
-
 				// Not supported yet.
 				if (iluCurImage->Type != IL_UNSIGNED_BYTE ||
 					iluCurImage->Format == IL_COLOUR_INDEX ||
-					iluCurImage->Depth > 1) {
+					iluCurImage->Depth > 1 || Depth > 1) {
 						ilSetError(ILU_ILLEGAL_OPERATION);
 						return IL_FALSE;
 				}
 
+				Temp = NULL;
 				if (iluCurImage->Width > Width) // shrink width first
-				{
-					Origin = iluCurImage->Origin;
-					Temp = iluScale_(iluCurImage, Width, iluCurImage->Height, iluCurImage->Depth);
-					if (Temp != NULL) {
-						if (!ilTexImage(Temp->Width, Temp->Height, Temp->Depth, Temp->Bpp, Temp->Format, Temp->Type, Temp->Data)) {
-							ilCloseImage(Temp);
-							return IL_FALSE;
-						}
-						iluCurImage->Origin = Origin;
-						ilCloseImage(Temp);
-					}
-				}
+					Temp = iluScale_(iluCurImage, Width, iluCurImage->Height, 1);
 				else if (iluCurImage->Height > Height) // shrink height first
-				{
-					Origin = iluCurImage->Origin;
-					Temp = iluScale_(iluCurImage, iluCurImage->Width, Height, iluCurImage->Depth);
-					if (Temp != NULL) {
-						if (!ilTexImage(Temp->Width, Temp->Height, Temp->Depth, Temp->Bpp, Temp->Format, Temp->Type, Temp->Data)) {
-							ilCloseImage(Temp);
-							return IL_FALSE;
-						}
-						iluCurImage->Origin = Origin;
-						ilCloseImage(Temp);
-					}
-				}
+					Temp = iluScale_(iluCurImage, iluCurImage->Width, Height, 1);
+				if (Temp != NULL)
+					iTakeImage(iluCurImage, Temp);
 
 				return (ILboolean)iluScaleAdvanced(Width, Height, iluFilter);
 		}
 	}
 
-
-	Origin = iluCurImage->Origin;
-	UsePal = (iluCurImage->Format == IL_COLOUR_INDEX);
 	PalType = iluCurImage->Pal.PalType;
 	Temp = iluScale_(iluCurImage, Width, Height, Depth);
-	if (Temp != NULL) {
-		if (!ilTexImage(Temp->Width, Temp->Height, Temp->Depth, Temp->Bpp, Temp->Format, Temp->Type, Temp->Data)) {
-			ilCloseImage(Temp);
-			return IL_FALSE;
-		}
-		iluCurImage->Origin = Origin;
+	if (Temp == NULL)
+		return IL_FALSE;
+
+	// Mixed colours need a new palette.
+	if (iluCurImage->Format == IL_COLOUR_INDEX && Temp->Format != IL_COLOUR_INDEX) {
+		Converted = iConvertImage(Temp, IL_COLOUR_INDEX, IL_UNSIGNED_BYTE);
 		ilCloseImage(Temp);
-		if (UsePal) {
-			if (!ilConvertImage(IL_COLOUR_INDEX, IL_UNSIGNED_BYTE))
-				return IL_FALSE;
-			ilConvertPal(PalType);
+		if (Converted == NULL)
+			return IL_FALSE;
+		Temp = Converted;
+		if (Temp->Pal.PalType != PalType) {
+			NewPal = iConvertPal(&Temp->Pal, PalType);
+			if (NewPal != NULL) {
+				ifree(Temp->Pal.Palette);
+				Temp->Pal = *NewPal;
+				ifree(NewPal);
+			}
 		}
-		return IL_TRUE;
 	}
 
-	return IL_FALSE;
+	iTakeImage(iluCurImage, Temp);
+
+	return IL_TRUE;
 }
 
 
-ILAPI ILimage* ILAPIENTRY iluScale_(ILimage *Image, ILuint Width, ILuint Height, ILuint Depth)
+// Reads channel Index as a number
+static ILdouble iReadChannel(const ILimage *Image, ILuint Index)
 {
-	ILimage	*Scaled, *CurImage, *ToScale;
-	ILenum	Format, PalType;
-
-	CurImage = ilGetCurImage();
-	Format = Image->Format;
-	if (Format == IL_COLOUR_INDEX) {
-		ilSetCurImage(Image);
-		PalType = Image->Pal.PalType;
-		ToScale = iConvertImage(iluCurImage, ilGetPalBaseType(Image->Pal.PalType), iluCurImage->Type);
-	}
-	else {
-		ToScale = Image;
+	switch (Image->Type)
+	{
+		case IL_BYTE:
+			return ((ILbyte*)Image->Data)[Index];
+		case IL_SHORT:
+			return ((ILshort*)Image->Data)[Index];
+		case IL_UNSIGNED_SHORT:
+			return ((ILushort*)Image->Data)[Index];
+		case IL_INT:
+			return ((ILint*)Image->Data)[Index];
+		case IL_UNSIGNED_INT:
+			return ((ILuint*)Image->Data)[Index];
+		case IL_FLOAT:
+			return ((ILfloat*)Image->Data)[Index];
+		case IL_DOUBLE:
+			return ((ILdouble*)Image->Data)[Index];
 	}
+	return Image->Data[Index];
+}
 
-	// So we don't replicate this 3 times (one in each iluScalexD_() function.
-	Scaled = (ILimage*)icalloc(1, sizeof(ILimage));
-	if (ilCopyImageAttr(Scaled, ToScale) == IL_FALSE) {
-		ilCloseImage(Scaled);
-		if (ToScale != Image)
-			ilCloseImage(ToScale);
-		ilSetCurImage(CurImage);
-		return NULL;
-	}
-	if (ilResizeImage(Scaled, Width, Height, Depth, ToScale->Bpp, ToScale->Bpc) == IL_FALSE) {
-		ilCloseImage(Scaled);
-		if (ToScale != Image)
-			ilCloseImage(ToScale);
-		ilSetCurImage(CurImage);
-		return NULL;
-	}
-	
-	if (Height <= 1 && Image->Height <= 1) {
-		iluScale1D_(ToScale, Scaled, Width);
-	}
-	if (Depth <= 1 && Image->Depth <= 1) {
-		iluScale2D_(ToScale, Scaled, Width, Height);
-	}
-	else {
-		iluScale3D_(ToScale, Scaled, Width, Height, Depth);
-	}
 
-	if (Format == IL_COLOUR_INDEX) {
-		//ilSetCurImage(Scaled);
-		//ilConvertImage(IL_COLOUR_INDEX);
-		ilSetCurImage(CurImage);
-		ilCloseImage(ToScale);
+static void iWriteChannel(ILimage *Image, ILuint Index, ILdouble Value)
+{
+	switch (Image->Type)
+	{
+		case IL_BYTE:
+			((ILbyte*)Image->Data)[Index] = (ILbyte)floor(Value + 0.5);
+			break;
+		case IL_UNSIGNED_BYTE:
+			Image->Data[Index] = (ILubyte)(Value + 0.5);
+			break;
+		case IL_SHORT:
+			((ILshort*)Image->Data)[Index] = (ILshort)floor(Value + 0.5);
+			break;
+		case IL_UNSIGNED_SHORT:
+			((ILushort*)Image->Data)[Index] = (ILushort)(Value + 0.5);
+			break;
+		case IL_INT:
+			((ILint*)Image->Data)[Index] = (ILint)floor(Value + 0.5);
+			break;
+		case IL_UNSIGNED_INT:
+			((ILuint*)Image->Data)[Index] = (ILuint)(Value + 0.5);
+			break;
+		case IL_FLOAT:
+			((ILfloat*)Image->Data)[Index] = (ILfloat)Value;
+			break;
+		case IL_DOUBLE:
+			((ILdouble*)Image->Data)[Index] = Value;
+			break;
 	}
 
-	return Scaled;
+	return;
 }
 
 
-ILimage *iluScale1D_(ILimage *Image, ILimage *Scaled, ILuint Width)
+// Finds the samples of the original around Pos on an axis and how far Pos is between them.
+static void iScalePos(ILuint Pos, ILuint OldSize, ILuint NewSize, ILuint *First, ILuint *Second, ILdouble *Frac)
 {
-	ILuint		x1, x2;
-	ILuint		NewX1, NewX2, NewX3, x, c;
-	ILdouble	ScaleX, t1, t2, f;
-	ILushort	*ShortPtr, *SShortPtr;
-	ILuint		*IntPtr, *SIntPtr;
+	const ILuint64 Scaled = (ILuint64)Pos * OldSize;
 
-	if (Image == NULL) {
-		ilSetError(ILU_ILLEGAL_OPERATION);
-		return IL_FALSE;
-	}
+	*First  = (ILuint)(Scaled / NewSize);
+	*Second = IL_MIN(*First + 1, OldSize - 1);
+	*Frac   = (ILdouble)(Scaled % NewSize) / NewSize;
 
-	ScaleX = (ILdouble)Width / Image->Width;
+	return;
+}
 
-	ShortPtr = (ILushort*)Image->Data;
-	SShortPtr = (ILushort*)Scaled->Data;
-	IntPtr = (ILuint*)Image->Data;
-	SIntPtr = (ILuint*)Scaled->Data;
 
-	if (iluFilter == ILU_NEAREST) {
-		switch (Image->Bpc)
-		{
-			case 1:
-				for (x = 0; x < Width; x++) {
-					NewX1 = x * Scaled->Bpp;
-					NewX2 = (ILuint)(x / ScaleX) * Image->Bpp;
-					for (c = 0; c < Scaled->Bpp; c++) {
-						Scaled->Data[NewX1 + c] = Image->Data[NewX2 + c];
-					}
-				}
-				break;
-			case 2:
-				for (x = 0; x < Width; x++) {
-					NewX1 = x * Scaled->Bpp;
-					NewX2 = (ILuint)(x / ScaleX) * Image->Bpp;
-					for (c = 0; c < Scaled->Bpp; c++) {
-						SShortPtr[NewX1 + c] = ShortPtr[NewX2 + c];
-					}
+// Fills Scaled, which has its new size already, from Image.
+//	ILU_NEAREST takes samples as they are, ILU_LINEAR interpolates along the rows, and all others in every direction.
+static void iScaleImage(ILimage *Image, ILimage *Scaled)
+{
+	ILuint		x, y, z, c, i, X[2], Y[2], Z[2], ImgBps, ImgPlane, Size, Corner;
+	ILdouble	Fx, Fy, Fz, v[8];
+	ILboolean	Nearest;
+
+	ImgBps   = Image->Bps / Image->Bpc;
+	ImgPlane = Image->SizeOfPlane / Image->Bpc;
+	Nearest  = (iluFilter == ILU_NEAREST || Image->Format == IL_COLOUR_INDEX || Image->Type == IL_HALF);
+
+	for (z = 0; z < Scaled->Depth; z++) {
+		iScalePos(z, Image->Depth, Scaled->Depth, &Z[0], &Z[1], &Fz);
+		for (y = 0; y < Scaled->Height; y++) {
+			iScalePos(y, Image->Height, Scaled->Height, &Y[0], &Y[1], &Fy);
+			for (x = 0; x < Scaled->Width; x++) {
+				iScalePos(x, Image->Width, Scaled->Width, &X[0], &X[1], &Fx);
+				Size = ((z * Scaled->Height + y) * Scaled->Width + x) * Scaled->Bpp;
+
+				if (Nearest) {
+					memcpy(Scaled->Data + Size * Scaled->Bpc,
+						Image->Data + (Z[0] * ImgPlane + Y[0] * ImgBps + X[0] * Image->Bpp) * Image->Bpc, Image->Bpp * Image->Bpc);
+					continue;
 				}
-				break;
-			case 4:
-				for (x = 0; x < Width; x++) {
-					NewX1 = x * Scaled->Bpp;
-					NewX2 = (ILuint)(x / ScaleX) * Image->Bpp;
-					for (c = 0; c < Scaled->Bpp; c++) {
-						SIntPtr[NewX1 + c] = IntPtr[NewX2 + c];
+				if (iluFilter == ILU_LINEAR)
+					Fy = Fz = 0;
+
+				for (c = 0; c < Scaled->Bpp; c++) {
+					for (i = 0; i < 8; i++) {
+						Corner = Z[i >> 2] * ImgPlane + Y[(i >> 1) & 1] * ImgBps + X[i & 1] * Image->Bpp + c;
+						v[i] = iReadChannel(Image, Corner);
 					}
+					for (i = 0; i < 4; i++)
+						v[i] = v[i * 2] + (v[i * 2 + 1] - v[i * 2]) * Fx;
+					for (i = 0; i < 2; i++)
+						v[i] = v[i * 2] + (v[i * 2 + 1] - v[i * 2]) * Fy;
+					iWriteChannel(Scaled, Size + c, v[0] + (v[1] - v[0]) * Fz);
 				}
-				break;
+			}
 		}
 	}
-	else {  // IL_LINEAR or IL_BILINEAR
-		switch (Image->Bpc)
-		{
-			case 1:
-				NewX3 = 0;
-				for (x = 0; x < Width; x++) {
-					t1 = x / (ILdouble)Width;
-					t2 = t1 * Width - (ILuint)(t1 * Width);
-					f = (1.0 - cos(t2 * IL_PI)) * .5;
-					NewX1 = ((ILuint)(t1 * Width / ScaleX)) * Image->Bpp;
-					NewX2 = ((ILuint)(t1 * Width / ScaleX) + 1) * Image->Bpp;
-
-					for (c = 0; c < Scaled->Bpp; c++) {
-						x1 = Image->Data[NewX1 + c];
-						x2 = Image->Data[NewX2 + c];
-
-						Scaled->Data[NewX3 + c] = (ILubyte)(x1 * (1.0 - f) + x2 * f);
-					}
 
-					NewX3 += Scaled->Bpp;
-				}
-				break;
-			case 2:
-				NewX3 = 0;
-				for (x = 0; x < Width; x++) {
-					t1 = x / (ILdouble)Width;
-					t2 = t1 * Width - (ILuint)(t1 * Width);
-					f = (1.0 - cos(t2 * IL_PI)) * .5;
-					NewX1 = ((ILuint)(t1 * Width / ScaleX)) * Image->Bpp;
-					NewX2 = ((ILuint)(t1 * Width / ScaleX) + 1) * Image->Bpp;
-
-					for (c = 0; c < Scaled->Bpp; c++) {
-						x1 = ShortPtr[NewX1 + c];
-						x2 = ShortPtr[NewX2 + c];
-
-						SShortPtr[NewX3 + c] = (ILushort)(x1 * (1.0 - f) + x2 * f);
-					}
+	return;
+}
 
-					NewX3 += Scaled->Bpp;
-				}
-				break;
-			case 4:
-				NewX3 = 0;
-				for (x = 0; x < Width; x++) {
-					t1 = x / (ILdouble)Width;
-					t2 = t1 * Width - (ILuint)(t1 * Width);
-					f = (1.0 - cos(t2 * IL_PI)) * .5;
-					NewX1 = ((ILuint)(t1 * Width / ScaleX)) * Image->Bpp;
-					NewX2 = ((ILuint)(t1 * Width / ScaleX) + 1) * Image->Bpp;
-
-					for (c = 0; c < Scaled->Bpp; c++) {
-						x1 = IntPtr[NewX1 + c];
-						x2 = IntPtr[NewX2 + c];
-
-						SIntPtr[NewX3 + c] = (ILuint)(x1 * (1.0 - f) + x2 * f);
-					}
 
-					NewX3 += Scaled->Bpp;
-				}
-				break;
+ILAPI ILimage* ILAPIENTRY iluScale_(ILimage *Image, ILuint Width, ILuint Height, ILuint Depth)
+{
+	ILimage	*Scaled, *ToScale = Image;
+
+	// Indices cannot be mixed.
+	if (Image->Format == IL_COLOUR_INDEX && iluFilter != ILU_NEAREST) {
+		ToScale = iConvertImage(Image, ilGetPalBaseType(Image->Pal.PalType), IL_UNSIGNED_BYTE);
+		if (ToScale == NULL)
+			return NULL;
+	}
+
+	Scaled = (ILimage*)icalloc(1, sizeof(ILimage));
+	if (Scaled != NULL) {
+		if (ilCopyImageAttr(Scaled, ToScale) && ilResizeImage(Scaled, Width, Height, Depth, ToScale->Bpp, ToScale->Bpc))
+			iScaleImage(ToScale, Scaled);
+		else {
+			ilCloseImage(Scaled);
+			Scaled = NULL;
 		}
 	}
 
+	if (ToScale != Image)
+		ilCloseImage(ToScale);
+
 	return Scaled;
 }
diff --git a/DevIL/src-ILU/src/ilu_scale2d.cpp b/DevIL/src-ILU/src/ilu_scale2d.cpp
deleted file mode 100644
index 98a5158..0000000
--- a/DevIL/src-ILU/src/ilu_scale2d.cpp
+++ /dev/null
@@ -1,479 +0,0 @@
-//-----------------------------------------------------------------------------
-//
-// ImageLib Utility Sources
-// Copyright (C) 2000-2017 by Denton Woods
-// Last modified: 05/25/2001
-//
-// Filename: src-ILU/src/ilu_scale2d.cpp
-//
-// Description: Scales an image.
-//
-//-----------------------------------------------------------------------------
-
-
-// NOTE:  Don't look at this file if you wish to preserve your sanity!
-
-
-#include "ilu_internal.h"
-#include "ilu_states.h"
-
-
-ILimage *iluScale2DNear_(ILimage *Image, ILimage *Scaled, ILuint Width, ILuint Height);
-ILimage *iluScale2DLinear_(ILimage *Image, ILimage *Scaled, ILuint Width, ILuint Height);
-ILimage *iluScale2DBilinear_(ILimage *Image, ILimage *Scaled, ILuint Width, ILuint Height);
-
-static ILuint	x1, x2;
-static ILuint	NewY1, NewY2, NewX1, NewX2, Size, x, y, c;
-static ILdouble	ScaleX, ScaleY, t1, t2, t3, t4, f, ft, NewX;
-static ILdouble	Table[2][4];  // Assumes we don't have larger than 32-bit images.
-static ILuint	ImgBps, SclBps;
-static ILushort	*ShortPtr, *SShortPtr;
-static ILuint	*IntPtr, *SIntPtr;
-static ILfloat	*FloatPtr, *SFloatPtr;
-
-
-
-ILimage *iluScale2D_(ILimage *Image, ILimage *Scaled, ILuint Width, ILuint Height)
-{
-	if (Image == NULL) {
-		ilSetError(ILU_ILLEGAL_OPERATION);
-		return IL_FALSE;
-	}
-
-	ScaleX = (ILfloat)Width / Image->Width;
-	ScaleY = (ILfloat)Height / Image->Height;
-
-	if (iluFilter == ILU_NEAREST)
-		return iluScale2DNear_(Image, Scaled, Width, Height);
-	else if (iluFilter == ILU_LINEAR)
-		return iluScale2DLinear_(Image, Scaled, Width, Height);
-	// iluFilter == ILU_BILINEAR
-	return iluScale2DBilinear_(Image, Scaled, Width, Height);
-}
-
-
-ILimage *iluScale2DNear_(ILimage *Image, ILimage *Scaled, ILuint Width, ILuint Height)
-{
-	ImgBps = Image->Bps / Image->Bpc;
-	SclBps = Scaled->Bps / Scaled->Bpc;
-
-	switch (Image->Bpc)
-	{
-		case 1:
-			for (y = 0; y < Height; y++) {
-				NewY1 = y * SclBps;
-				NewY2 = (ILuint)(y / ScaleY) * ImgBps;
-				for (x = 0; x < Width; x++) {
-					NewX1 = x * Scaled->Bpp;
-					NewX2 = (ILuint)(x / ScaleX) * Image->Bpp;
-					for (c = 0; c < Scaled->Bpp; c++) {
-						Scaled->Data[NewY1 + NewX1 + c] = Image->Data[NewY2 + NewX2 + c];
-						x1 = 0;
-					}
-				}
-			}
-			break;
-
-		case 2:
-			ShortPtr = (ILushort*)Image->Data;
-			SShortPtr = (ILushort*)Scaled->Data;
-			for (y = 0; y < Height; y++) {
-				NewY1 = y * SclBps;
-				NewY2 = (ILuint)(y / ScaleY) * ImgBps;
-				for (x = 0; x < Width; x++) {
-					NewX1 = x * Scaled->Bpp;
-					NewX2 = (ILuint)(x / ScaleX) * Image->Bpp;
-					for (c = 0; c < Scaled->Bpp; c++) {
-						SShortPtr[NewY1 + NewX1 + c] = ShortPtr[NewY2 + NewX2 + c];
-						x1 = 0;
-					}
-				}
-			}
-			break;
-
-		case 4:
-			IntPtr = (ILuint*)Image->Data;
-			SIntPtr = (ILuint*)Scaled->Data;
-			for (y = 0; y < Height; y++) {
-				NewY1 = y * SclBps;
-				NewY2 = (ILuint)(y / ScaleY) * ImgBps;
-				for (x = 0; x < Width; x++) {
-					NewX1 = x * Scaled->Bpp;
-					NewX2 = (ILuint)(x / ScaleX) * Image->Bpp;
-					for (c = 0; c < Scaled->Bpp; c++) {
-						SIntPtr[NewY1 + NewX1 + c] = IntPtr[NewY2 + NewX2 + c];
-						x1 = 0;
-					}
-				}
-			}
-			break;
-	}
-
-	return Scaled;
-}
-
-
-ILimage *iluScale2DLinear_(ILimage *Image, ILimage *Scaled, ILuint Width, ILuint Height)
-{
-	ImgBps = Image->Bps / Image->Bpc;
-	SclBps = Scaled->Bps / Scaled->Bpc;
-
-	switch (Image->Bpc)
-	{
-		case 1:
-			for (y = 0; y < Height; y++) {
-				NewY1 = (ILuint)(y / ScaleY) * ImgBps;
-				for (x = 0; x < Width; x++) {
-					t1 = x / (ILdouble)Width;
-					t4 = t1 * Width;
-					t2 = t4 - (ILuint)(t4);
-					ft = t2 * IL_PI;
-					f = (1.0 - cos(ft)) * .5;
-					NewX1 = ((ILuint)(t4 / ScaleX)) * Image->Bpp;
-					NewX2 = ((ILuint)(t4 / ScaleX) + 1) * Image->Bpp;
-
-					Size = y * SclBps + x * Scaled->Bpp;
-					for (c = 0; c < Scaled->Bpp; c++) {
-						x1 = Image->Data[NewY1 + NewX1 + c];
-						x2 = Image->Data[NewY1 + NewX2 + c];
-						Scaled->Data[Size + c] = (ILubyte)((1.0 - f) * x1 + f * x2);
-					}
-				}
-			}
-			break;
-
-		case 2:
-			ShortPtr = (ILushort*)Image->Data;
-			SShortPtr = (ILushort*)Scaled->Data;
-			for (y = 0; y < Height; y++) {
-				NewY1 = (ILuint)(y / ScaleY) * ImgBps;
-				for (x = 0; x < Width; x++) {
-					t1 = x / (ILdouble)Width;
-					t4 = t1 * Width;
-					t2 = t4 - (ILuint)(t4);
-					ft = t2 * IL_PI;
-					f = (1.0 - cos(ft)) * .5;
-					NewX1 = ((ILuint)(t4 / ScaleX)) * Image->Bpp;
-					NewX2 = ((ILuint)(t4 / ScaleX) + 1) * Image->Bpp;
-
-					Size = y * SclBps + x * Scaled->Bpp;
-					for (c = 0; c < Scaled->Bpp; c++) {
-						x1 = ShortPtr[NewY1 + NewX1 + c];
-						x2 = ShortPtr[NewY1 + NewX2 + c];
-						SShortPtr[Size + c] = (ILushort)((1.0 - f) * x1 + f * x2);
-					}
-				}
-			}
-			break;
-
-		case 4:
-			IntPtr = (ILuint*)Image->Data;
-			SIntPtr = (ILuint*)Scaled->Data;
-			for (y = 0; y < Height; y++) {
-				NewY1 = (ILuint)(y / ScaleY) * ImgBps;
-				for (x = 0; x < Width; x++) {
-					t1 = x / (ILdouble)Width;
-					t4 = t1 * Width;
-					t2 = t4 - (ILuint)(t4);
-					ft = t2 * IL_PI;
-					f = (1.0 - cos(ft)) * .5;
-					NewX1 = ((ILuint)(t4 / ScaleX)) * Image->Bpp;
-					NewX2 = ((ILuint)(t4 / ScaleX) + 1) * Image->Bpp;
-
-					Size = y * SclBps + x * Scaled->Bpp;
-					for (c = 0; c < Scaled->Bpp; c++) {
-						x1 = IntPtr[NewY1 + NewX1 + c];
-						x2 = IntPtr[NewY1 + NewX2 + c];
-						SIntPtr[Size + c] = (ILuint)((1.0 - f) * x1 + f * x2);
-					}
-				}
-			}
-			break;
-	}
-
-	return Scaled;
-}
-
-
-// Rewrote using an algorithm described by Paul Nettle at
-//  http://www.gamedev.net/reference/articles/article669.asp.
-ILimage *iluScale2DBilinear_(ILimage *Image, ILimage *Scaled, ILuint Width, ILuint Height)
-{
-	ILfloat	ul, ll, ur, lr;
-	ILfloat	FracX, FracY;
-	ILfloat	SrcX, SrcY;
-	ILuint	iSrcX, iSrcY, iSrcXPlus1, iSrcYPlus1, ulOff, llOff, urOff, lrOff;
-
-	ImgBps = Image->Bps / Image->Bpc;
-	SclBps = Scaled->Bps / Scaled->Bpc;
-
-	switch (Image->Bpc)
-	{
-		case 1:
-			for (y = 0; y < Height; y++) {
-				for (x = 0; x < Width; x++) {
-					// Calculate where we want to choose pixels from in our source image.
-					SrcX = (ILfloat)x / (ILfloat)ScaleX;
-					SrcY = (ILfloat)y / (ILfloat)ScaleY;
-					// Integer part of SrcX and SrcY
-					iSrcX = (ILuint)floor(SrcX);
-					iSrcY = (ILuint)floor(SrcY);
-					// Fractional part of SrcX and SrcY
-					FracX = SrcX - (ILfloat)(iSrcX);
-					FracY = SrcY - (ILfloat)(iSrcY);
-
-					// We do not want to go past the right edge of the image or past the last line in the image,
-					//  so this takes care of that.  Normally, iSrcXPlus1 is iSrcX + 1, but if this is past the
-					//  right side, we have to bring it back to iSrcX.  The same goes for iSrcYPlus1.
-					if (iSrcX < Image->Width - 1)
-						iSrcXPlus1 = iSrcX + 1;
-					else 
-						iSrcXPlus1 = iSrcX;
-					if (iSrcY < Image->Height - 1)
-						iSrcYPlus1 = iSrcY + 1;
-					else
-						iSrcYPlus1 = iSrcY;
-
-					// Find out how much we want each of the four pixels contributing to the final values.
-					ul = (1.0f - FracX) * (1.0f - FracY);
-					ll = (1.0f - FracX) * FracY;
-					ur = FracX * (1.0f - FracY);
-					lr = FracX * FracY;
-
-					for (c = 0; c < Scaled->Bpp; c++) {
-						// We just calculate the offsets for each pixel here...
-						ulOff = iSrcY * Image->Bps + iSrcX * Image->Bpp + c;
-						llOff = iSrcYPlus1 * Image->Bps + iSrcX * Image->Bpp + c;
-						urOff = iSrcY * Image->Bps + iSrcXPlus1 * Image->Bpp + c;
-						lrOff = iSrcYPlus1 * Image->Bps + iSrcXPlus1 * Image->Bpp + c;
-
-						// ...and then we do the actual interpolation here.
-						Scaled->Data[y * Scaled->Bps + x * Scaled->Bpp + c] = (ILubyte)(
-							ul * Image->Data[ulOff] + ll * Image->Data[llOff] + ur * Image->Data[urOff] + lr * Image->Data[lrOff]);
-					}
-				}
-			}
-			break;
-
-		case 2:
-			ShortPtr = (ILushort*)Image->Data;
-			SShortPtr = (ILushort*)Scaled->Data;
-			Height--;  // Only use regular Height once in the following loop.
-			for (y = 0; y < Height; y++) {
-				NewY1 = (ILuint)(y / ScaleY) * ImgBps;
-				NewY2 = (ILuint)((y+1) / ScaleY) * ImgBps;
-				for (x = 0; x < Width; x++) {
-					NewX = Width / ScaleX;
-					t1 = x / (ILdouble)Width;
-					t4 = t1 * Width;
-					t2 = t4 - (ILuint)(t4);
-					t3 = (1.0 - t2);
-					t4 = t1 * NewX;
-					NewX1 = (ILuint)(t4) * Image->Bpp;
-					NewX2 = (ILuint)(t4 + 1) * Image->Bpp;
-
-					for (c = 0; c < Scaled->Bpp; c++) {
-						Table[0][c] = t3 * ShortPtr[NewY1 + NewX1 + c] +
-							t2 * ShortPtr[NewY1 + NewX2 + c];
-
-						Table[1][c] = t3 * ShortPtr[NewY2 + NewX1 + c] +
-							t2 * ShortPtr[NewY2 + NewX2 + c];
-					}
-
-					// Linearly interpolate between the table values.
-					t1 = y / (ILdouble)(Height + 1);  // Height+1 is the real height now.
-					t3 = (1.0 - t1);
-					Size = y * SclBps + x * Scaled->Bpp;
-					for (c = 0; c < Scaled->Bpp; c++) {
-						SShortPtr[Size + c] =
-							(ILushort)(t3 * Table[0][c] + t1 * Table[1][c]);
-					}
-				}
-			}
-
-			// Calculate the last row.
-			NewY1 = (ILuint)(Height / ScaleY) * ImgBps;
-			for (x = 0; x < Width; x++) {
-				NewX = Width / ScaleX;
-				t1 = x / (ILdouble)Width;
-				t4 = t1 * Width;
-				ft = (t4 - (ILuint)(t4)) * IL_PI;
-				f = (1.0 - cos(ft)) * .5;  // Cosine interpolation
-				NewX1 = (ILuint)(t1 * NewX) * Image->Bpp;
-				NewX2 = (ILuint)(t1 * NewX + 1) * Image->Bpp;
-
-				Size = Height * SclBps + x * Image->Bpp;
-				for (c = 0; c < Scaled->Bpp; c++) {
-					SShortPtr[Size + c] = (ILushort)((1.0 - f) * ShortPtr[NewY1 + NewX1 + c] +
-						f * ShortPtr[NewY1 + NewX2 + c]);
-				}
-			}
-			break;
-
-		case 4:
-			if (Image->Type != IL_FLOAT) {
-				IntPtr = (ILuint*)Image->Data;
-				SIntPtr = (ILuint*)Scaled->Data;
-				Height--;  // Only use regular Height once in the following loop.
-				for (y = 0; y < Height; y++) {
-					NewY1 = (ILuint)(y / ScaleY) * ImgBps;
-					NewY2 = (ILuint)((y+1) / ScaleY) * ImgBps;
-					for (x = 0; x < Width; x++) {
-						NewX = Width / ScaleX;
-						t1 = x / (ILdouble)Width;
-						t4 = t1 * Width;
-						t2 = t4 - (ILuint)(t4);
-						t3 = (1.0 - t2);
-						t4 = t1 * NewX;
-						NewX1 = (ILuint)(t4) * Image->Bpp;
-						NewX2 = (ILuint)(t4 + 1) * Image->Bpp;
-
-						for (c = 0; c < Scaled->Bpp; c++) {
-							Table[0][c] = t3 * IntPtr[NewY1 + NewX1 + c] +
-								t2 * IntPtr[NewY1 + NewX2 + c];
-
-							Table[1][c] = t3 * IntPtr[NewY2 + NewX1 + c] +
-								t2 * IntPtr[NewY2 + NewX2 + c];
-						}
-
-						// Linearly interpolate between the table values.
-						t1 = y / (ILdouble)(Height + 1);  // Height+1 is the real height now.
-						t3 = (1.0 - t1);
-						Size = y * SclBps + x * Scaled->Bpp;
-						for (c = 0; c < Scaled->Bpp; c++) {
-							SIntPtr[Size + c] =
-								(ILuint)(t3 * Table[0][c] + t1 * Table[1][c]);
-						}
-					}
-				}
-
-				// Calculate the last row.
-				NewY1 = (ILuint)(Height / ScaleY) * ImgBps;
-				for (x = 0; x < Width; x++) {
-					NewX = Width / ScaleX;
-					t1 = x / (ILdouble)Width;
-					t4 = t1 * Width;
-					ft = (t4 - (ILuint)(t4)) * IL_PI;
-					f = (1.0 - cos(ft)) * .5;  // Cosine interpolation
-					NewX1 = (ILuint)(t1 * NewX) * Image->Bpp;
-					NewX2 = (ILuint)(t1 * NewX + 1) * Image->Bpp;
-
-					Size = Height * SclBps + x * Image->Bpp;
-					for (c = 0; c < Scaled->Bpp; c++) {
-						SIntPtr[Size + c] = (ILuint)((1.0 - f) * IntPtr[NewY1 + NewX1 + c] +
-							f * IntPtr[NewY1 + NewX2 + c]);
-					}
-				}
-
-			}
-
-			else {  // IL_FLOAT
-				FloatPtr = (ILfloat*)Image->Data;
-				SFloatPtr = (ILfloat*)Scaled->Data;
-				Height--;  // Only use regular Height once in the following loop.
-
-				for (y = 0; y < Height; y++) {
-
-					NewY1 = (ILuint)(y / ScaleY) * ImgBps;
-
-					NewY2 = (ILuint)((y+1) / ScaleY) * ImgBps;
-
-					for (x = 0; x < Width; x++) {
-
-						NewX = Width / ScaleX;
-
-						t1 = x / (ILdouble)Width;
-
-						t4 = t1 * Width;
-
-						t2 = t4 - (ILuint)(t4);
-
-						t3 = (1.0 - t2);
-
-						t4 = t1 * NewX;
-
-						NewX1 = (ILuint)(t4) * Image->Bpp;
-
-						NewX2 = (ILuint)(t4 + 1) * Image->Bpp;
-
-
-
-						for (c = 0; c < Scaled->Bpp; c++) {
-
-							Table[0][c] = t3 * FloatPtr[NewY1 + NewX1 + c] +
-
-								t2 * FloatPtr[NewY1 + NewX2 + c];
-
-
-
-							Table[1][c] = t3 * FloatPtr[NewY2 + NewX1 + c] +
-
-								t2 * FloatPtr[NewY2 + NewX2 + c];
-
-						}
-
-
-
-						// Linearly interpolate between the table values.
-
-						t1 = y / (ILdouble)(Height + 1);  // Height+1 is the real height now.
-
-						t3 = (1.0 - t1);
-
-						Size = y * SclBps + x * Scaled->Bpp;
-
-						for (c = 0; c < Scaled->Bpp; c++) {
-
-							SFloatPtr[Size + c] =
-
-								(ILfloat)(t3 * Table[0][c] + t1 * Table[1][c]);
-
-						}
-
-					}
-
-				}
-
-
-
-				// Calculate the last row.
-
-				NewY1 = (ILuint)(Height / ScaleY) * ImgBps;
-
-				for (x = 0; x < Width; x++) {
-
-					NewX = Width / ScaleX;
-
-					t1 = x / (ILdouble)Width;
-
-					t4 = t1 * Width;
-
-					ft = (t4 - (ILuint)(t4)) * IL_PI;
-
-					f = (1.0 - cos(ft)) * .5;  // Cosine interpolation
-
-					NewX1 = (ILuint)(t1 * NewX) * Image->Bpp;
-
-					NewX2 = (ILuint)(t1 * NewX + 1) * Image->Bpp;
-
-
-
-					Size = Height * SclBps + x * Image->Bpp;
-
-					for (c = 0; c < Scaled->Bpp; c++) {
-
-						SFloatPtr[Size + c] = (ILfloat)((1.0 - f) * FloatPtr[NewY1 + NewX1 + c] +
-
-							f * FloatPtr[NewY1 + NewX2 + c]);
-
-					}
-
-				}
-
-			}
-
-			break;
-	}
-
-	return Scaled;
-}
diff --git a/DevIL/src-ILU/src/ilu_scale3d.cpp b/DevIL/src-ILU/src/ilu_scale3d.cpp
deleted file mode 100644
index 00b08e0..0000000
--- a/DevIL/src-ILU/src/ilu_scale3d.cpp
+++ /dev/null
@@ -1,313 +0,0 @@
-//-----------------------------------------------------------------------------
-//
-// ImageLib Utility Sources
-// Copyright (C) 2000-2017 by Denton Woods
-// Last modified: 05/25/2001
-//
-// Filename: src-ILU/src/ilu_scale.cpp
-//
-// Description: Scales an image.
-//
-//-----------------------------------------------------------------------------
-
-
-// NOTE:  Don't look at this file if you wish to preserve your sanity!
-
-
-#include "ilu_internal.h"
-#include "ilu_states.h"
-
-
-ILimage *iluScale3DNear_(ILimage *Image, ILimage *Scaled, ILuint Width, ILuint Height, ILuint Depth);
-ILimage *iluScale3DLinear_(ILimage *Image, ILimage *Scaled, ILuint Width, ILuint Height, ILuint Depth);
-ILimage *iluScale3DBilinear_(ILimage *Image, ILimage *Scaled, ILuint Width, ILuint Height, ILuint Depth);
-
-static ILuint		Size, NewX1, NewX2, NewY1, NewY2, NewZ1, NewZ2, x, y, z, c;
-static ILdouble	ScaleX, ScaleY, ScaleZ, x1, x2, t1, t2, t4, f, ft;
-//ILdouble	Table[2][2][4];  // Assumes we don't have larger than 32-bit images.
-static ILuint		ImgBps, SclBps, ImgPlane, SclPlane;
-static ILushort	*ShortPtr, *SShortPtr;
-static ILuint		*IntPtr, *SIntPtr;
-
-
-ILimage *iluScale3D_(ILimage *Image, ILimage *Scaled, ILuint Width, ILuint Height, ILuint Depth)
-{
-	if (Image == NULL) {
-		ilSetError(ILU_ILLEGAL_OPERATION);
-		return IL_FALSE;
-	}
-
-	ScaleX = (ILfloat)Width / Image->Width;
-	ScaleY = (ILfloat)Height / Image->Height;
-	ScaleZ = (ILfloat)Depth / Image->Depth;
-
-	//if (iluFilter == ILU_NEAREST)
-		return iluScale3DNear_(Image, Scaled, Width, Height, Depth);
-	//else if (iluFilter == ILU_LINEAR)
-		//return iluScale3DLinear_(Image, Scaled, Width, Height, Depth);
-	
-	// iluFilter == ILU_BILINEAR
-	//return iluScale3DBilinear_(Image, Scaled, Width, Height, Depth);
-}
-
-
-ILimage *iluScale3DNear_(ILimage *Image, ILimage *Scaled, ILuint Width, ILuint Height, ILuint Depth)
-{
-	ImgBps = Image->Bps / Image->Bpc;
-	SclBps = Scaled->Bps / Scaled->Bpc;
-	ImgPlane = Image->SizeOfPlane / Image->Bpc;
-	SclPlane = Scaled->SizeOfPlane / Scaled->Bpc;
-
-	switch (Image->Bpc)
-	{
-		case 1:
-			for (z = 0; z < Depth; z++) {
-				NewZ1 = z * SclPlane;
-				NewZ2 = (ILuint)(z / ScaleZ) * ImgPlane;
-				for (y = 0; y < Height; y++) {
-					NewY1 = y * SclBps;
-					NewY2 = (ILuint)(y / ScaleY) * ImgBps;
-					for (x = 0; x < Width; x++) {
-						NewX1 = x * Scaled->Bpp;
-						NewX2 = (ILuint)(x / ScaleX) * Image->Bpp;
-						for (c = 0; c < Scaled->Bpp; c++) {
-							Scaled->Data[NewZ1 + NewY1 + NewX1 + c] =
-								Image->Data[NewZ2 + NewY2 + NewX2 + c];
-						}
-					}
-				}
-			}
-			break;
-
-		case 2:
-			ShortPtr = (ILushort*)Image->Data;
-			SShortPtr = (ILushort*)Scaled->Data;
-			for (z = 0; z < Depth; z++) {
-				NewZ1 = z * SclPlane;
-				NewZ2 = (ILuint)(z / ScaleZ) * ImgPlane;
-				for (y = 0; y < Height; y++) {
-					NewY1 = y * SclBps;
-					NewY2 = (ILuint)(y / ScaleY) * ImgBps;
-					for (x = 0; x < Width; x++) {
-						NewX1 = x * Scaled->Bpp;
-						NewX2 = (ILuint)(x / ScaleX) * Image->Bpp;
-						for (c = 0; c < Scaled->Bpp; c++) {
-							SShortPtr[NewZ1 + NewY1 + NewX1 + c] =
-								ShortPtr[NewZ2 + NewY2 + NewX2 + c];
-						}
-					}
-				}
-			}
-			break;
-
-		case 4:
-			IntPtr = (ILuint*)Image->Data;
-			SIntPtr = (ILuint*)Scaled->Data;
-			for (z = 0; z < Depth; z++) {
-				NewZ1 = z * SclPlane;
-				NewZ2 = (ILuint)(z / ScaleZ) * ImgPlane;
-				for (y = 0; y < Height; y++) {
-					NewY1 = y * SclBps;
-					NewY2 = (ILuint)(y / ScaleY) * ImgBps;
-					for (x = 0; x < Width; x++) {
-						NewX1 = x * Scaled->Bpp;
-						NewX2 = (ILuint)(x / ScaleX) * Image->Bpp;
-						for (c = 0; c < Scaled->Bpp; c++) {
-							SIntPtr[NewZ1 + NewY1 + NewX1 + c] =
-								IntPtr[NewZ2 + NewY2 + NewX2 + c];
-						}
-					}
-				}
-			}
-			break;
-	}
-
-	return Scaled;
-}
-
-
-ILimage *iluScale3DLinear_(ILimage *Image, ILimage *Scaled, ILuint Width, ILuint Height, ILuint Depth)
-{
-	ImgBps = Image->Bps / Image->Bpc;
-	SclBps = Scaled->Bps / Scaled->Bpc;
-	ImgPlane = Image->SizeOfPlane / Image->Bpc;
-	SclPlane = Scaled->SizeOfPlane / Scaled->Bpc;
-
-	switch (Image->Bpc)
-	{
-		case 1:
-			for (z = 0; z < Depth; z++) {
-				NewZ1 = (ILuint)(z / ScaleZ) * ImgPlane;
-				for (y = 0; y < Height; y++) {
-					NewY1 = (ILuint)(y / ScaleY) * ImgBps;
-					for (x = 0; x < Width; x++) {
-						t1 = x / (ILdouble)Width;
-						t4 = t1 * Width;
-						t2 = t4 - (ILuint)(t4);
-						ft = t2 * IL_PI;
-						f = (1.0 - cos(ft)) * .5;
-						NewX1 = ((ILuint)(t4 / ScaleX)) * Image->Bpp;
-						NewX2 = ((ILuint)(t4 / ScaleX) + 1) * Image->Bpp;
-
-						Size = z * SclPlane + y * SclBps + x * Scaled->Bpp;
-						for (c = 0; c < Scaled->Bpp; c++) {
-							x1 = Image->Data[NewZ1 + NewY1 + NewX1 + c];
-							x2 = Image->Data[NewZ1 + NewY1 + NewX2 + c];
-							Scaled->Data[Size + c] = (ILubyte)((1.0 - f) * x1 + f * x2);
-						}
-					}
-				}
-			}
-			break;
-
-		case 2:
-			ShortPtr = (ILushort*)Image->Data;
-			SShortPtr = (ILushort*)Scaled->Data;
-			for (z = 0; z < Depth; z++) {
-				NewZ1 = (ILuint)(z / ScaleZ) * ImgPlane;
-				for (y = 0; y < Height; y++) {
-					NewY1 = (ILuint)(y / ScaleY) * ImgBps;
-					for (x = 0; x < Width; x++) {
-						t1 = x / (ILdouble)Width;
-						t4 = t1 * Width;
-						t2 = t4 - (ILuint)(t4);
-						ft = t2 * IL_PI;
-						f = (1.0 - cos(ft)) * .5;
-						NewX1 = ((ILuint)(t4 / ScaleX)) * Image->Bpp;
-						NewX2 = ((ILuint)(t4 / ScaleX) + 1) * Image->Bpp;
-
-						Size = z * SclPlane + y * SclBps + x * Scaled->Bpp;
-						for (c = 0; c < Scaled->Bpp; c++) {
-							x1 = ShortPtr[NewZ1 + NewY1 + NewX1 + c];
-							x2 = ShortPtr[NewZ1 + NewY1 + NewX2 + c];
-							SShortPtr[Size + c] = (ILubyte)((1.0 - f) * x1 + f * x2);
-						}
-					}
-				}
-			}
-			break;
-
-		case 4:
-			IntPtr = (ILuint*)Image->Data;
-			SIntPtr = (ILuint*)Scaled->Data;
-			for (z = 0; z < Depth; z++) {
-				NewZ1 = (ILuint)(z / ScaleZ) * ImgPlane;
-				for (y = 0; y < Height; y++) {
-					NewY1 = (ILuint)(y / ScaleY) * ImgBps;
-					for (x = 0; x < Width; x++) {
-						t1 = x / (ILdouble)Width;
-						t4 = t1 * Width;
-						t2 = t4 - (ILuint)(t4);
-						ft = t2 * IL_PI;
-						f = (1.0 - cos(ft)) * .5;
-						NewX1 = ((ILuint)(t4 / ScaleX)) * Image->Bpp;
-						NewX2 = ((ILuint)(t4 / ScaleX) + 1) * Image->Bpp;
-
-						Size = z * SclPlane + y * SclBps + x * Scaled->Bpp;
-						for (c = 0; c < Scaled->Bpp; c++) {
-							x1 = IntPtr[NewZ1 + NewY1 + NewX1 + c];
-							x2 = IntPtr[NewZ1 + NewY1 + NewX2 + c];
-							SIntPtr[Size + c] = (ILubyte)((1.0 - f) * x1 + f * x2);
-						}
-					}
-				}
-			}
-			break;
-	}
-
-	return Scaled;
-}
-
-
-/*ILimage *iluScale3DBilinear_(ILimage *Image, ILimage *Scaled, ILuint Width, ILuint Height, ILuint Depth);
-{
-		Depth--;  // Only use regular Depth once in the following loop.
-		Height--;  // Only use regular Height once in the following loop.
-		for (z = 0; z < Depth; z++) {
-			NewZ1 = (ILuint)(z / ScaleZ) * Image->SizeOfPlane;
-			NewZ2 = (ILuint)((z+1) / ScaleZ) * Image->SizeOfPlane;
-			for (y = 0; y < Height; y++) {
-				NewY1 = (ILuint)(y / ScaleY) * Image->Bps;
-				NewY2 = (ILuint)((y+1) / ScaleY) * Image->Bps;
-				for (x = 0; x < Width; x++) {
-					NewX = Width / ScaleX;
-					t1 = x / (ILdouble)Width;
-					t4 = t1 * Width;
-					t2 = t4 - (ILuint)(t4);
-					t3 = (1.0 - t2);
-					t4 = t1 * NewX;
-					NewX1 = (ILuint)(t4) * Image->Bpp;
-					NewX2 = (ILuint)(t4 + 1) * Image->Bpp;
-
-					for (c = 0; c < Scaled->Bpp; c++) {
-						Table[0][0][c] = t3 * Image->Data[NewZ1 + NewY1 + NewX1 + c] +
-							t2 * Image->Data[NewZ1 + NewY1 + NewX2 + c];
-
-						Table[0][1][c] = t3 * Image->Data[NewZ1 + NewY2 + NewX1 + c] +
-							t2 * Image->Data[NewZ1 + NewY2 + NewX2 + c];
-
-						Table[1][0][c] = t3 * Image->Data[NewZ2 + NewY1 + NewX1 + c] +
-							t2 * Image->Data[NewZ2 + NewY1 + NewX2 + c];
-
-						Table[1][1][c] = t3 * Image->Data[NewZ2 + NewY2 + NewX1 + c] +
-							t2 * Image->Data[NewZ2 + NewY2 + NewX2 + c];
-					}
-
-					// Linearly interpolate between the table values.
-					t1 = y / (ILdouble)(Height + 1);  // Height+1 is the real height now.
-					t2 = z / (ILdouble)(Depth + 1);   // Depth+1 is the real depth now.
-					t3 = (1.0 - t1);
-					Size = z * Scaled->SizeOfPlane + y * Scaled->Bps + x * Scaled->Bpp;
-					for (c = 0; c < Scaled->Bpp; c++) {
-						x1 = t3 * Table[0][0][c] + t1 * Table[0][1][c];
-						x2 = t3 * Table[1][0][c] + t1 * Table[1][1][c];
-						Scaled->Data[Size + c] = (ILubyte)((1.0 - t2) * x1 + t2 * x2);
-					}
-				}
-			}
-
-			// Calculate the last row.
-			NewY1 = (ILuint)(Height / ScaleY) * Image->Bps;
-			for (x = 0; x < Width; x++) {
-				NewX = Width / ScaleX;
-				t1 = x / (ILdouble)Width;
-				t4 = t1 * Width;
-				ft = (t4 - (ILuint)(t4)) * IL_PI;
-				f = (1.0 - cos(ft)) * .5;  // Cosine interpolation
-				NewX1 = (ILuint)(t1 * NewX) * Image->Bpp;
-				NewX2 = (ILuint)(t1 * NewX + 1) * Image->Bpp;
-
-				Size = Height * Scaled->Bps + x * Image->Bpp;
-				for (c = 0; c < Scaled->Bpp; c++) {
-					Scaled->Data[Size + c] = (ILubyte)((1.0 - f) * Image->Data[NewY1 + NewX1 + c] +
-						f * Image->Data[NewY1 + NewX2 + c]);
-				}
-			}
-		}
-
-		NewZ1 = (ILuint)(Depth / ScaleZ) * Image->SizeOfPlane;
-		for (y = 0; y < Height; y++) {
-			NewY1 = (ILuint)(y / ScaleY) * Image->Bps;
-			for (x = 0; x < Width; x++) {
-				t1 = x / (ILdouble)Width;
-				t4 = t1 * Width;
-				t2 = t4 - (ILuint)(t4);
-				ft = t2 * IL_PI;
-				f = (1.0 - cos(ft)) * .5;
-				NewX1 = ((ILuint)(t4 / ScaleX)) * Image->Bpp;
-				NewX2 = ((ILuint)(t4 / ScaleX) + 1) * Image->Bpp;
-
-				Size = (Depth) * Scaled->SizeOfPlane + y * Scaled->Bps + x * Scaled->Bpp;
-				for (c = 0; c < Scaled->Bpp; c++) {
-					x1 = Image->Data[NewZ1 + NewY1 + NewX1 + c];
-					x2 = Image->Data[NewZ1 + NewY1 + NewX2 + c];
-					Scaled->Data[Size + c] = (ILubyte)((1.0 - f) * x1 + f * x2);
-				}
-			}
-		}
-	}
-
-	return Scaled;
-}
-*/
-
-- 
2.43.0


From 6ee92043a268ffd7e8421b70695de65c2c144fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:19 +0000
Subject: [PATCH 022/115] fix: type detection, loading and fix-up of loaded
 images leave consistent images, selection and error state

---
 DevIL/src-IL/include/il_dcx.h      |  28 ---
 DevIL/src-IL/include/il_internal.h |   8 +
 DevIL/src-IL/src/il_convert.cpp    |  72 ++----
 DevIL/src-IL/src/il_dcx.cpp        | 367 ++---------------------------
 DevIL/src-IL/src/il_devil.cpp      |   6 +-
 DevIL/src-IL/src/il_error.cpp      |   1 -
 DevIL/src-IL/src/il_io.cpp         | 327 ++++++++++++++++++++++++-
 DevIL/src-IL/src/il_stack.cpp      |  24 ++
 8 files changed, 397 insertions(+), 436 deletions(-)

diff --git a/DevIL/src-IL/include/il_dcx.h b/DevIL/src-IL/include/il_dcx.h
index c8522b7..f6926b1 100644
--- a/DevIL/src-IL/include/il_dcx.h
+++ b/DevIL/src-IL/include/il_dcx.h
@@ -17,36 +17,8 @@
 #include "il_internal.h"
 
 
-#ifdef _WIN32
-#pragma pack(push, packed_struct, 1)
-#endif
-typedef struct DCXHEAD
-{
-	ILubyte		Manufacturer;
-	ILubyte		Version;
-	ILubyte		Encoding;
-	ILubyte		Bpp;
-	ILushort	Xmin, Ymin, Xmax, Ymax;
-	ILushort	HDpi;
-	ILushort	VDpi;
-	ILubyte		ColMap[48];
-	ILubyte		Reserved;
-	ILubyte		NumPlanes;
-	ILushort	Bps;
-	ILushort	PaletteInfo;
-	ILushort	HScreenSize;
-	ILushort	VScreenSize;
-	ILubyte		Filler[54];
-} IL_PACKSTRUCT DCXHEAD;
-#ifdef _WIN32
-#pragma pack(pop, packed_struct)
-#endif
-
 // For checking and reading
 ILboolean iIsValidDcx(void);
-ILboolean iCheckDcx(DCXHEAD *Header);
 ILboolean iLoadDcxInternal(void);
-ILimage*  iUncompressDcx(DCXHEAD *Header);
-ILimage*  iUncompressDcxSmall(DCXHEAD *Header);
 
 #endif//PCX_H
diff --git a/DevIL/src-IL/include/il_internal.h b/DevIL/src-IL/include/il_internal.h
index babb7c7..cdafa9e 100644
--- a/DevIL/src-IL/include/il_internal.h
+++ b/DevIL/src-IL/include/il_internal.h
@@ -206,6 +206,14 @@ ILboolean	ilAddAlphaKey(ILimage *Image);
 ILboolean	iFastConvert(ILenum DestFormat);
 ILboolean	ilFixCur(void);
 ILboolean	ilFixImage(void);
+ILboolean	iIsLoading(void);
+ILboolean	iReselectImage(ILimage *Image);
+
+// Errors that are pending
+#define IL_ERROR_STACK_SIZE 32
+extern ILenum	ilErrorNum[IL_ERROR_STACK_SIZE];
+extern ILint	ilErrorPlace;
+
 ILboolean	ilRemoveAlpha(void);
 ILboolean	ilSwapColours(void);
 // Palette functions
diff --git a/DevIL/src-IL/src/il_convert.cpp b/DevIL/src-IL/src/il_convert.cpp
index 3e286e0..03943d2 100644
--- a/DevIL/src-IL/src/il_convert.cpp
+++ b/DevIL/src-IL/src/il_convert.cpp
@@ -910,63 +910,31 @@ ILboolean ilFixImage()
 }
 */
 
-/*
-This function was replaced 20050304, because the previous version
-didn't fix the mipmaps of the subimages etc. This version is not
-completely correct either, because the subimages of the subimages
-etc. are not fixed, but at the moment no images of this type can
-be loaded anyway. Thanks to Chris Lux for pointing this out.
-*/
 
-ILboolean ilFixImage()
+static ILboolean iFixChain(ILimage *Image)
 {
-	ILuint NumFaces,  f;
-	ILuint NumImages, i;
-	ILuint NumMipmaps,j;
-	ILuint NumLayers, k;
-
-	NumImages = ilGetInteger(IL_NUM_IMAGES);
-	for (i = 0; i <= NumImages; i++) {
-		ilBindImage(ilGetCurName());  // Set to parent image first.
-		if (!ilActiveImage(i))
+	for (; Image != NULL; Image = Image->Next) {
+		iCurImage = Image;
+		if (!ilFixCur())
+			return IL_FALSE;
+		if (!iFixChain(Image->Mipmaps) || !iFixChain(Image->Faces) || !iFixChain(Image->Layers))
 			return IL_FALSE;
+	}
+	return IL_TRUE;
+}
 
-		NumFaces = ilGetInteger(IL_NUM_FACES);
-		for (f = 0; f <= NumFaces; f++) {
-			ilBindImage(ilGetCurName());  // Set to parent image first.
-			if (!ilActiveImage(i))
-				return IL_FALSE;
-			if (!ilActiveFace(f))
-				return IL_FALSE;
 
-			NumLayers = ilGetInteger(IL_NUM_LAYERS);
-			for (k = 0; k <= NumLayers; k++) {
-				ilBindImage(ilGetCurName());  // Set to parent image first.
-				if (!ilActiveImage(i))
-					return IL_FALSE;
-				if (!ilActiveFace(f))
-					return IL_FALSE;
-				if (!ilActiveLayer(k))
-					return IL_FALSE;
+// Applies the modes for loading to the current image and all that hangs on it.
+ILboolean ilFixImage()
+{
+	ILimage		*Image = iCurImage;
+	ILboolean	bRet;
 
-				NumMipmaps = ilGetInteger(IL_NUM_MIPMAPS);
-				for (j = 0; j <= NumMipmaps; j++) {
-					ilBindImage(ilGetCurName());	// Set to parent image first.
-					if (!ilActiveImage(i))
-						return IL_FALSE;
-					if (!ilActiveFace(f))
-						return IL_FALSE;
-					if (!ilActiveLayer(k))
-						return IL_FALSE;
-					if (!ilActiveMipmap(j))
-						return IL_FALSE;
-					if (!ilFixCur())
-						return IL_FALSE;
-				}
-			}
-		}
-	}
-	ilBindImage(ilGetCurName());
+	if (iIsLoading())
+		return IL_TRUE;  // Done once, when the loader has ended.
 
-	return IL_TRUE;
+	bRet = iFixChain(Image);
+	iCurImage = Image;
+
+	return bRet;
 }
diff --git a/DevIL/src-IL/src/il_dcx.cpp b/DevIL/src-IL/src/il_dcx.cpp
index efe1314..298bee6 100644
--- a/DevIL/src-IL/src/il_dcx.cpp
+++ b/DevIL/src-IL/src/il_dcx.cpp
@@ -14,6 +14,7 @@
 #include "il_internal.h"
 #ifndef IL_NO_DCX
 #include "il_dcx.h"
+#include "il_pcx.h"
 
 
 //! Checks if the file specified in FileName is a valid .dcx file.
@@ -63,24 +64,6 @@ ILboolean ilIsValidDcxL(const void *Lump, ILuint Size)
 }
 
 
-// Internal function obtain the .dcx header from the current file.
-ILboolean iGetDcxHead(DCXHEAD *Head)
-{
-	Head->Xmin = GetLittleUShort();
-	Head->Ymin = GetLittleUShort();
-	Head->Xmax = GetLittleUShort();
-	Head->Ymax = GetLittleUShort();
-	Head->HDpi = GetLittleUShort();
-	Head->VDpi = GetLittleUShort();
-	Head->Bps = GetLittleUShort();
-	Head->PaletteInfo = GetLittleUShort();
-	Head->HScreenSize = GetLittleUShort();
-	Head->VScreenSize = GetLittleUShort();
-
-	return IL_TRUE;
-}
-
-
 // Internal function to get the header and check it.
 ILboolean iIsValidDcx()
 {
@@ -94,39 +77,6 @@ ILboolean iIsValidDcx()
 }
 
 
-// Internal function used to check if the HEADER is a valid .dcx header.
-// Should we also do a check on Header->Bpp?
-ILboolean iCheckDcx(DCXHEAD *Header)
-{
-	ILuint	Test, i;
-
-	// There are other versions, but I am not supporting them as of yet.
-	//	Got rid of the Reserved check, because I've seen some .dcx files with invalid values in it.
-	if (Header->Manufacturer != 10 || Header->Version != 5 || Header->Encoding != 1/* || Header->Reserved != 0*/)
-		return IL_FALSE;
-
-	// See if the padding size is correct
-	Test = Header->Xmax - Header->Xmin + 1;
-	/*if (Header->Bpp >= 8) {
-		if (Test & 1) {
-			if (Header->Bps != Test + 1)
-				return IL_FALSE;
-		}
-		else {
-			if (Header->Bps != Test)  // No padding
-				return IL_FALSE;
-		}
-	}*/
-
-	for (i = 0; i < 54; i++) {
-		if (Header->Filler[i] != 0)
-			return IL_FALSE;
-	}
-
-	return IL_TRUE;
-}
-
-
 //! Reads a .dcx file
 ILboolean ilLoadDcx(ILconst_string FileName)
 {
@@ -168,318 +118,51 @@ ILboolean ilLoadDcxL(const void *Lump, ILuint Size) {
 }
 
 
-// Internal function used to load the .dcx.
+// Internal function used to load the .dcx: a list of .pcx files.
 ILboolean iLoadDcxInternal()
 {
-	DCXHEAD	Header;
-	ILuint	Signature, i, Entries[1024], Num = 0;
-	ILimage	*Image, *Base;
+	ILuint	Entries[1024], i, Num;
 
 	if (iCurImage == NULL) {
 		ilSetError(IL_ILLEGAL_OPERATION);
 		return IL_FALSE;
 	}
 
-	if (!iIsValidDcx())
+	if (!iIsValidDcx()) {
+		ilSetError(IL_INVALID_FILE_HEADER);
 		return IL_FALSE;
-	iread(&Signature, 1, 4);
+	}
+	iseek(4, IL_SEEK_CUR);
 
-	do {
+	// The list ends with a 0 unless it is full.
+	for (Num = 0; Num < 1024; Num++) {
 		if (iread(&Entries[Num], 1, 4) != 4)
 			return IL_FALSE;
-		Num++;
-	} while (Entries[Num-1] != 0);
-
-	for (i = 0; i < Num; i++) {
-		iseek(Entries[i], IL_SEEK_SET);
-		iGetDcxHead(&Header);
-		/*if (!iCheckDcx(&Header)) {
-			ilSetError(IL_INVALID_FILE_HEADER);
-			return IL_FALSE;
-		}*/
-
-		Image = iUncompressDcx(&Header);
-		if (Image == NULL)
-			return IL_FALSE;
-
-		if (i == 0) {
-			ilTexImage(Image->Width, Image->Height, 1, Image->Bpp, Image->Format, Image->Type, Image->Data);
-			Base = iCurImage;
-			Base->Origin = IL_ORIGIN_UPPER_LEFT;
-			ilCloseImage(Image);
-		}
-		else {
-			iCurImage->Next = Image;
-			iCurImage = iCurImage->Next;
-		}
-	}
-
-	return ilFixImage();
-}
-
-
-// Internal function to uncompress the .dcx (all .dcx files are rle compressed)
-ILimage *iUncompressDcx(DCXHEAD *Header)
-{
-	ILubyte		ByteHead, Colour, *ScanLine = NULL /* Only one plane */;
-	ILuint		c, i, x, y;//, Read = 0;
-	ILimage		*Image = NULL;
-
-	if (Header->Bpp < 8) {
-		/*ilSetError(IL_FORMAT_NOT_SUPPORTED);
-		return IL_FALSE;*/
-		return iUncompressDcxSmall(Header);
-	}
-
-	Image = ilNewImage(Header->Xmax - Header->Xmin + 1, Header->Ymax - Header->Ymin + 1, 1, Header->NumPlanes, 1);
-	if (Image == NULL)
-		return NULL;
-	/*if (!ilTexImage(Header->Xmax - Header->Xmin + 1, Header->Ymax - Header->Ymin + 1, 1, Header->NumPlanes, 0, IL_UNSIGNED_BYTE, NULL)) {
-		return IL_FALSE;
-	}*/
-	Image->Origin = IL_ORIGIN_UPPER_LEFT;
-
-	ScanLine = (ILubyte*)ialloc(Header->Bps);
-	if (ScanLine == NULL)
-		goto dcx_error;
-
-	switch (Image->Bpp)
-	{
-		case 1:
-			Image->Format = IL_COLOUR_INDEX;
-			Image->Pal.PalType = IL_PAL_RGB24;
-			Image->Pal.PalSize = 256 * 3; // Need to find out for sure...
-			Image->Pal.Palette = (ILubyte*)ialloc(Image->Pal.PalSize);
-			if (Image->Pal.Palette == NULL)
-				goto dcx_error;
-			break;
-		//case 2:  // No 16-bit images in the dcx format!
-		case 3:
-			Image->Format = IL_RGB;
-			Image->Pal.Palette = NULL;
-			Image->Pal.PalSize = 0;
-			Image->Pal.PalType = IL_PAL_NONE;
-			break;
-		case 4:
-			Image->Format = IL_RGBA;
-			Image->Pal.Palette = NULL;
-			Image->Pal.PalSize = 0;
-			Image->Pal.PalType = IL_PAL_NONE;
+		UInt(&Entries[Num]);
+		if (Entries[Num] == 0)
 			break;
-
-		default:
-			ilSetError(IL_ILLEGAL_FILE_VALUE);
-			goto dcx_error;
-	}
-
-
-		/*StartPos = itell();
-		Compressed = (ILubyte*)ialloc(Image->SizeOfData * 4 / 3);
-		iread(Compressed, 1, Image->SizeOfData * 4 / 3);
-
-		for (y = 0; y < Image->Height; y++) {
-			for (c = 0; c < Image->Bpp; c++) {
-				x = 0;
-				while (x < Header->Bps) {
-					ByteHead = Compressed[Read++];
-					if ((ByteHead & 0xC0) == 0xC0) {
-						ByteHead &= 0x3F;
-						Colour = Compressed[Read++];
-						for (i = 0; i < ByteHead; i++) {
-							ScanLine[x++] = Colour;
-						}
-					}
-					else {
-						ScanLine[x++] = ByteHead;
-					}
-				}
-
-				for (x = 0; x < Image->Width; x++) {  // 'Cleverly' ignores the pad bytes ;)
-					Image->Data[y * Image->Bps + x * Image->Bpp + c] = ScanLine[x];
-				}
-			}
-		}
-
-		ifree(Compressed);
-		iseek(StartPos + Read, IL_SEEK_SET);*/
-
-	//changed 2003-09-01
-	if (iGetHint(IL_MEM_SPEED_HINT) == IL_FASTEST)
-		iPreCache(iCurImage->SizeOfData);
-
-	//TODO: because the .pcx-code was broken this
-	//code is probably broken, too
-	for (y = 0; y < Image->Height; y++) {
-		for (c = 0; c < Image->Bpp; c++) {
-			x = 0;
-			while (x < Header->Bps) {
-				if (iread(&ByteHead, 1, 1) != 1) {
-					iUnCache();
-					goto dcx_error;
-				}
-				if ((ByteHead & 0xC0) == 0xC0) {
-					ByteHead &= 0x3F;
-					if (iread(&Colour, 1, 1) != 1) {
-						iUnCache();
-						goto dcx_error;
-					}
-					for (i = 0; i < ByteHead; i++) {
-						ScanLine[x++] = Colour;
-					}
-				}
-				else {
-					ScanLine[x++] = ByteHead;
-				}
-			}
-
-			for (x = 0; x < Image->Width; x++) {  // 'Cleverly' ignores the pad bytes ;)
-				Image->Data[y * Image->Bps + x * Image->Bpp + c] = ScanLine[x];
-			}
-		}
 	}
-
-	iUnCache();
-
-
-	ifree(ScanLine);
-
-	// Read in the palette
-	if (Image->Bpp == 1) {
-		ByteHead = igetc();	// the value 12, because it signals there's a palette for some reason...
-							//	We should do a check to make certain it's 12...
-		if (ByteHead != 12)
-			iseek(-1, IL_SEEK_CUR);
-		if (iread(Image->Pal.Palette, 1, Image->Pal.PalSize) != Image->Pal.PalSize) {
-			ilCloseImage(Image);
-			return NULL;
-		}
-	}
-
-	return Image;
-
-dcx_error:
-	ifree(ScanLine);
-	ilCloseImage(Image);
-	return NULL;
-}
-
-
-ILimage *iUncompressDcxSmall(DCXHEAD *Header)
-{
-	ILuint	i = 0, j, k, c, d, x, y, Bps;
-	ILubyte	HeadByte, Colour, Data = 0, *ScanLine = NULL;
-	ILimage	*Image;
-
-	Image = ilNewImage(Header->Xmax - Header->Xmin + 1, Header->Ymax - Header->Ymin + 1, 1, Header->NumPlanes, 1);
-	if (Image == NULL)
-		return NULL;
-
-	/*if (!ilTexImage(Header->Xmax - Header->Xmin + 1, Header->Ymax - Header->Ymin + 1, 1, 1, 0, IL_UNSIGNED_BYTE, NULL)) {
+	if (Num == 0) {
+		ilSetError(IL_ILLEGAL_FILE_VALUE);
 		return IL_FALSE;
-	}*/
-	Image->Origin = IL_ORIGIN_UPPER_LEFT;
-
-	switch (Header->NumPlanes)
-	{
-		case 1:
-			Image->Format = IL_LUMINANCE;
-			break;
-		case 4:
-			Image->Format = IL_COLOUR_INDEX;
-			break;
-		default:
-			ilSetError(IL_ILLEGAL_FILE_VALUE);
-			ilCloseImage(Image);
-			return NULL;
 	}
 
-	if (Header->NumPlanes == 1) {
-		for (j = 0; j < Image->Height; j++) {
-			i = 0;
-			while (i < Image->Width) {
-				if (iread(&HeadByte, 1, 1) != 1)
-					goto file_read_error;
-				if (HeadByte >= 192) {
-					HeadByte -= 192;
-					if (iread(&Data, 1, 1) != 1)
-						goto file_read_error;
-
-					for (c = 0; c < HeadByte; c++) {
-						k = 128;
-						for (d = 0; d < 8 && i < Image->Width; d++) {
-							Image->Data[j * Image->Width + i++] = (!!(Data & k) == 1 ? 255 : 0);
-							k >>= 1;
-						}
-					}
-				}
-				else {
-					k = 128;
-					for (c = 0; c < 8 && i < Image->Width; c++) {
-						Image->Data[j * Image->Width + i++] = (!!(HeadByte & k) == 1 ? 255 : 0);
-						k >>= 1;
-					}
-				}
-			}
-			if (Data != 0)
-				igetc();  // Skip pad byte if last byte not a 0
-		}
-	}
-	else {   // 4-bit images
-		Bps = Header->Bps * Header->NumPlanes * 2;
-		Image->Pal.Palette = (ILubyte*)ialloc(16 * 3);  // Size of palette always (48 bytes).
-		Image->Pal.PalSize = 16 * 3;
-		Image->Pal.PalType = IL_PAL_RGB24;
-		ScanLine = (ILubyte*)ialloc(Bps);
-		if (Image->Pal.Palette == NULL || ScanLine == NULL) {
-			ifree(ScanLine);
-			ilCloseImage(Image);
-			return NULL;
+	for (i = 0; i < Num; i++) {
+		if (i > 0) {
+			iCurImage->Next = ilNewImage(1, 1, 1, 1, 1);
+			if (iCurImage->Next == NULL)
+				return IL_FALSE;
+			iCurImage = iCurImage->Next;
 		}
-
-		memcpy(Image->Pal.Palette, Header->ColMap, 16 * 3);
-		imemclear(Image->Data, Image->SizeOfData);  // Since we do a += later.
-
-		for (y = 0; y < Image->Height; y++) {
-			for (c = 0; c < Header->NumPlanes; c++) {
-				x = 0;
-				while (x < Bps) {
-					if (iread(&HeadByte, 1, 1) != 1)
-						goto file_read_error;
-					if ((HeadByte & 0xC0) == 0xC0) {
-						HeadByte &= 0x3F;
-						if (iread(&Colour, 1, 1) != 1)
-							goto file_read_error;
-						for (i = 0; i < HeadByte; i++) {
-							k = 128;
-							for (j = 0; j < 8; j++) {
-								ScanLine[x++] = !!(Colour & k);
-								k >>= 1;
-							}
-						}
-					}
-					else {
-						k = 128;
-						for (j = 0; j < 8; j++) {
-							ScanLine[x++] = !!(HeadByte & k);
-							k >>= 1;
-						}
-					}
-				}
-
-				for (x = 0; x < Image->Width; x++) {  // 'Cleverly' ignores the pad bytes. ;)
-					Image->Data[y * Image->Width + x] += ScanLine[x] << c;
-				}
-			}
+		if (iseek(Entries[i], IL_SEEK_SET) != 0) {
+			ilSetError(IL_FILE_READ_ERROR);
+			return IL_FALSE;
 		}
-		ifree(ScanLine);
+		if (!iLoadPcxInternal())
+			return IL_FALSE;
 	}
 
-	return Image;
-
-file_read_error:
-	ifree(ScanLine);
-	ilCloseImage(Image);
-	return NULL;
+	return ilFixImage();
 }
 
 #endif//IL_NO_DCX
diff --git a/DevIL/src-IL/src/il_devil.cpp b/DevIL/src-IL/src/il_devil.cpp
index f613c9d..8032158 100644
--- a/DevIL/src-IL/src/il_devil.cpp
+++ b/DevIL/src-IL/src/il_devil.cpp
@@ -80,6 +80,10 @@ ILAPI ILboolean ILAPIENTRY ilInitImage(ILimage *Image, ILuint Width, ILuint Heig
 	if (Data != NULL) {
 		memcpy(Image->Data, Data, Image->SizeOfData);
 	}
+	else {
+		// Not every file has something to say about each pixel.
+		memset(Image->Data, 0, Image->SizeOfData);
+	}
 
 	return IL_TRUE;
 }
@@ -170,7 +174,7 @@ ILAPI ILboolean ILAPIENTRY ilTexImage_(ILimage *Image, ILuint Width, ILuint Heig
 		return IL_FALSE;
 
 	// Not sure if we should be getting rid of the palette...
-	if (Image->Pal.Palette && Image->Pal.PalSize && Image->Pal.PalType != IL_PAL_NONE) {
+	if (Image->Pal.Palette) {
 		ifree(Image->Pal.Palette);
 	}
 
diff --git a/DevIL/src-IL/src/il_error.cpp b/DevIL/src-IL/src/il_error.cpp
index 159c7df..87bc3a5 100644
--- a/DevIL/src-IL/src/il_error.cpp
+++ b/DevIL/src-IL/src/il_error.cpp
@@ -14,7 +14,6 @@
 #include "il_internal.h"
 
 
-#define IL_ERROR_STACK_SIZE 32  // Needed elsewhere?
 
 
 ILenum	ilErrorNum[IL_ERROR_STACK_SIZE];
diff --git a/DevIL/src-IL/src/il_io.cpp b/DevIL/src-IL/src/il_io.cpp
index afbb685..702e2bb 100644
--- a/DevIL/src-IL/src/il_io.cpp
+++ b/DevIL/src-IL/src/il_io.cpp
@@ -42,6 +42,99 @@ wchar_t *WideFromMultiByte(const char *Multi)
 #endif
 
 
+// The errors pending before a file is looked at or loaded.
+typedef struct iProbe
+{
+	ILenum	Errors[IL_ERROR_STACK_SIZE];
+	ILint	Place;
+} iProbe;
+
+static void iBeginProbe(iProbe *Probe)
+{
+	memcpy(Probe->Errors, ilErrorNum, sizeof(ilErrorNum));
+	Probe->Place = ilErrorPlace;
+}
+
+// Forgets the errors raised since iBeginProbe.
+static void iEndProbe(const iProbe *Probe)
+{
+	memcpy(ilErrorNum, Probe->Errors, sizeof(ilErrorNum));
+	ilErrorPlace = Probe->Place;
+}
+
+
+static ILboolean iLoadingImage = IL_FALSE;
+
+// Whether a loader is at work, so that ilFixImage has to wait for its end.
+ILboolean iIsLoading()
+{
+	return iLoadingImage;
+}
+
+
+// Whether the fields of an image agree with each other.
+static ILboolean iIsSound(const ILimage *Image)
+{
+	ILuint64 Row;
+	ILuint PalBpp;
+
+	if (Image->Data == NULL || Image->Width == 0 || Image->Height == 0 || Image->Depth == 0)
+		return IL_FALSE;
+	if (Image->Bpp == 0 || ilGetBppFormat(Image->Format) != Image->Bpp)
+		return IL_FALSE;
+	if (Image->Bpc == 0 || ilGetBpcType(Image->Type) != Image->Bpc)
+		return IL_FALSE;
+	Row = (ILuint64)Image->Width * Image->Bpp * Image->Bpc;
+	if (Image->Bps != Row || Image->SizeOfPlane != Row * Image->Height || Image->SizeOfData != Row * Image->Height * Image->Depth)
+		return IL_FALSE;
+	if (Image->Origin != IL_ORIGIN_LOWER_LEFT && Image->Origin != IL_ORIGIN_UPPER_LEFT)
+		return IL_FALSE;
+	if (Image->Pal.Palette == NULL)
+		return Image->Format != IL_COLOUR_INDEX && Image->Pal.PalSize == 0;
+	PalBpp = ilGetBppPal(Image->Pal.PalType);
+	return PalBpp != 0 && Image->Pal.PalSize >= PalBpp && Image->Pal.PalSize % PalBpp == 0;
+}
+
+
+static ILboolean iIsSoundChain(const ILimage *Image)
+{
+	for (; Image != NULL; Image = Image->Next) {
+		if (!iIsSound(Image))
+			return IL_FALSE;
+		if (!iIsSoundChain(Image->Mipmaps) || !iIsSoundChain(Image->Faces) || !iIsSoundChain(Image->Layers))
+			return IL_FALSE;
+	}
+	return IL_TRUE;
+}
+
+
+// Common end of all load functions: the image loaded into is the current one again, the modes for loading
+//	have been applied to all of it, and an error is pending exactly if the load has failed.
+static ILboolean iEndLoad(ILboolean bRet, ILimage *Target, ILboolean WasLoading, const iProbe *Probe)
+{
+	iLoadingImage = WasLoading;
+
+	if (iReselectImage(Target)) {
+		if (!iIsSoundChain(iCurImage)) {
+			if (bRet)
+				ilSetError(IL_ILLEGAL_FILE_VALUE);
+			bRet = IL_FALSE;
+			// Nothing of use has been read.
+			ilTexImage(1, 1, 1, 4, IL_RGBA, IL_UNSIGNED_BYTE, NULL);
+		}
+		if (bRet)
+			bRet = ilFixImage();
+	}
+
+	if (bRet)
+		iEndProbe(Probe);
+	else if (ilErrorPlace < 0 || (ilErrorPlace <= Probe->Place && ilErrorPlace < IL_ERROR_STACK_SIZE - 1))
+		ilSetError(IL_ILLEGAL_FILE_VALUE);  // The loader gave no reason.
+
+	return bRet;
+}
+
+
 ILenum ILAPIENTRY ilTypeFromExt(ILconst_string FileName)
 {
 	ILenum		Type;
@@ -81,6 +174,8 @@ ILenum ILAPIENTRY ilTypeFromExt(ILconst_string FileName)
 		Type = IL_CUT;
 	else if (!iStrCmp(Ext, IL_TEXT("ch")) || !iStrCmp(Ext, IL_TEXT("ct")) || !iStrCmp(Ext, IL_TEXT("sct")))
 		Type = IL_SCITEX;
+	else if (!iStrCmp(Ext, IL_TEXT("dcx")))
+		Type = IL_DCX;
 	else if (!iStrCmp(Ext, IL_TEXT("dcm")) || !iStrCmp(Ext, IL_TEXT("dicom")))
 		Type = IL_DICOM;
 	else if (!iStrCmp(Ext, IL_TEXT("dpx")))
@@ -182,7 +277,7 @@ ILenum ILAPIENTRY ilDetermineType(ILconst_string FileName)
 	File = iopenr(FileName);
 	if (File == NULL) {
 		ilSetError(IL_COULD_NOT_OPEN_FILE);
-		return IL_FALSE;
+		return IL_TYPE_UNKNOWN;
 	}
 	Type = ilDetermineTypeF(File);
 	icloser(File);
@@ -191,7 +286,7 @@ ILenum ILAPIENTRY ilDetermineType(ILconst_string FileName)
 }
 
 
-ILenum ILAPIENTRY ilDetermineTypeF(ILHANDLE File)
+static ILenum iDetermineTypeHandle(ILHANDLE File)
 {
 	if (File == NULL)
 		return IL_TYPE_UNKNOWN;
@@ -221,6 +316,11 @@ ILenum ILAPIENTRY ilDetermineTypeF(ILHANDLE File)
 		return IL_BLP;
 	#endif
 
+	#ifndef IL_NO_DCX
+	if (ilIsValidDcxF(File))
+		return IL_DCX;
+	#endif
+
 	#ifndef IL_NO_EXR
 	if (ilIsValidExrF(File))
 		return IL_EXR;
@@ -347,7 +447,7 @@ ILenum ILAPIENTRY ilDetermineTypeF(ILHANDLE File)
 }
 
 
-ILenum ILAPIENTRY ilDetermineTypeL(const void *Lump, ILuint Size)
+static ILenum iDetermineTypeLump(const void *Lump, ILuint Size)
 {
 	if (Lump == NULL)
 		return IL_TYPE_UNKNOWN;
@@ -377,6 +477,11 @@ ILenum ILAPIENTRY ilDetermineTypeL(const void *Lump, ILuint Size)
 		return IL_BLP;
 	#endif
 
+	#ifndef IL_NO_DCX
+	if (ilIsValidDcxL(Lump, Size))
+		return IL_DCX;
+	#endif
+
 	#ifndef IL_NO_EXR
 	if (ilIsValidExrL(Lump, Size))
 		return IL_EXR;
@@ -503,7 +608,7 @@ ILenum ILAPIENTRY ilDetermineTypeL(const void *Lump, ILuint Size)
 }
 
 
-ILboolean ILAPIENTRY ilIsValid(ILenum Type, ILconst_string FileName)
+static ILboolean iIsValidFile(ILenum Type, ILconst_string FileName)
 {
 	if (FileName == NULL) {
 		ilSetError(IL_INVALID_PARAM);
@@ -627,6 +732,11 @@ ILboolean ILAPIENTRY ilIsValid(ILenum Type, ILconst_string FileName)
 			return ilIsValidPsp(FileName);
 		#endif
 
+		#ifndef IL_NO_DCX
+		case IL_DCX:
+			return ilIsValidDcx(FileName);
+		#endif
+
 		#ifndef IL_NO_SCITEX
 		case IL_SCITEX:
 			return ilIsValidScitex(FileName);
@@ -668,7 +778,7 @@ ILboolean ILAPIENTRY ilIsValid(ILenum Type, ILconst_string FileName)
 }
 
 
-ILboolean ILAPIENTRY ilIsValidF(ILenum Type, ILHANDLE File)
+static ILboolean iIsValidHandle(ILenum Type, ILHANDLE File)
 {
 	if (File == NULL) {
 		ilSetError(IL_INVALID_PARAM);
@@ -792,6 +902,11 @@ ILboolean ILAPIENTRY ilIsValidF(ILenum Type, ILHANDLE File)
 			return ilIsValidPspF(File);
 		#endif
 
+		#ifndef IL_NO_DCX
+		case IL_DCX:
+			return ilIsValidDcxF(File);
+		#endif
+
 		#ifndef IL_NO_SCITEX
 		case IL_SCITEX:
 			return ilIsValidScitexF(File);
@@ -833,7 +948,7 @@ ILboolean ILAPIENTRY ilIsValidF(ILenum Type, ILHANDLE File)
 }
 
 
-ILboolean ILAPIENTRY ilIsValidL(ILenum Type, void *Lump, ILuint Size)
+static ILboolean iIsValidLump(ILenum Type, void *Lump, ILuint Size)
 {
 	if (Lump == NULL) {
 		ilSetError(IL_INVALID_PARAM);
@@ -957,6 +1072,11 @@ ILboolean ILAPIENTRY ilIsValidL(ILenum Type, void *Lump, ILuint Size)
 			return ilIsValidPspL(Lump, Size);
 		#endif
 
+		#ifndef IL_NO_DCX
+		case IL_DCX:
+			return ilIsValidDcxL(Lump, Size);
+		#endif
+
 		#ifndef IL_NO_SCITEX
 		case IL_SCITEX:
 			return ilIsValidScitexL(Lump, Size);
@@ -1009,7 +1129,9 @@ ILboolean ILAPIENTRY ilIsValidL(ILenum Type, void *Lump, ILuint Size)
 	       the filename of the file to load.
 	\return Boolean value of failure or success.  Returns IL_FALSE if all three loading methods
 	       have been tried and failed.*/
-ILboolean ILAPIENTRY ilLoad(ILenum Type, ILconst_string FileName)
+static ILboolean iLoadAnyFile(ILconst_string FileName);
+
+static ILboolean iLoadFile(ILenum Type, ILconst_string FileName)
 {
 	ILboolean	bRet;
 
@@ -1021,7 +1143,7 @@ ILboolean ILAPIENTRY ilLoad(ILenum Type, ILconst_string FileName)
 	switch (Type)
 	{
 		case IL_TYPE_UNKNOWN:
-			bRet = ilLoadImage(FileName);
+			bRet = iLoadAnyFile(FileName);
 			break;
 
 		#ifndef IL_NO_TGA
@@ -1084,6 +1206,18 @@ ILboolean ILAPIENTRY ilLoad(ILenum Type, ILconst_string FileName)
 			break;
 		#endif
 
+		#ifndef IL_NO_DCX
+		case IL_DCX:
+			bRet = ilLoadDcx(FileName);
+			break;
+		#endif
+
+		#ifndef IL_NO_SCITEX
+		case IL_SCITEX:
+			bRet = ilLoadScitex(FileName);
+			break;
+		#endif
+
 		#ifndef IL_NO_CUT
 		case IL_CUT:
 			bRet = ilLoadCut(FileName);
@@ -1327,7 +1461,7 @@ ILboolean ILAPIENTRY ilLoad(ILenum Type, ILconst_string FileName)
 	If IL_TYPE_UNKNOWN is specified, ilLoadF will try to determine the type of the file and load it.
 	\param File File stream to load from.
 	\return Boolean value of failure or success.  Returns IL_FALSE if loading fails.*/
-ILboolean ILAPIENTRY ilLoadF(ILenum Type, ILHANDLE File)
+static ILboolean iLoadHandle(ILenum Type, ILHANDLE File)
 {
 	if (File == NULL) {
 		ilSetError(IL_INVALID_PARAM);
@@ -1340,6 +1474,7 @@ ILboolean ILAPIENTRY ilLoadF(ILenum Type, ILHANDLE File)
 	switch (Type)
 	{
 		case IL_TYPE_UNKNOWN:
+			ilSetError(IL_FORMAT_NOT_SUPPORTED);
 			return IL_FALSE;
 
 		#ifndef IL_NO_TGA
@@ -1379,6 +1514,16 @@ ILboolean ILAPIENTRY ilLoadF(ILenum Type, ILHANDLE File)
 			return ilLoadBmpF(File);
 		#endif
 
+		#ifndef IL_NO_DCX
+		case IL_DCX:
+			return ilLoadDcxF(File);
+		#endif
+
+		#ifndef IL_NO_SCITEX
+		case IL_SCITEX:
+			return ilLoadScitexF(File);
+		#endif
+
 		#ifndef IL_NO_CUT
 		case IL_CUT:
 			return ilLoadCutF(File);
@@ -1592,7 +1737,7 @@ ILboolean ILAPIENTRY ilLoadF(ILenum Type, ILHANDLE File)
 	\param Lump The buffer where the file data is located
 	\param Size Size of the buffer
 	\return Boolean value of failure or success.  Returns IL_FALSE if loading fails.*/
-ILboolean ILAPIENTRY ilLoadL(ILenum Type, const void *Lump, ILuint Size)
+static ILboolean iLoadLump(ILenum Type, const void *Lump, ILuint Size)
 {
 	if (Lump == NULL || Size == 0) {
 		ilSetError(IL_INVALID_PARAM);
@@ -1605,6 +1750,7 @@ ILboolean ILAPIENTRY ilLoadL(ILenum Type, const void *Lump, ILuint Size)
 	switch (Type)
 	{
 		case IL_TYPE_UNKNOWN:
+			ilSetError(IL_FORMAT_NOT_SUPPORTED);
 			return IL_FALSE;
 
 		#ifndef IL_NO_TGA
@@ -1642,6 +1788,16 @@ ILboolean ILAPIENTRY ilLoadL(ILenum Type, const void *Lump, ILuint Size)
 			return ilLoadBmpL(Lump, Size);
 		#endif
 
+		#ifndef IL_NO_DCX
+		case IL_DCX:
+			return ilLoadDcxL(Lump, Size);
+		#endif
+
+		#ifndef IL_NO_SCITEX
+		case IL_SCITEX:
+			return ilLoadScitexL(Lump, Size);
+		#endif
+
 		#ifndef IL_NO_CUT
 		case IL_CUT:
 			return ilLoadCutL(Lump, Size);
@@ -1856,7 +2012,7 @@ ILboolean ILAPIENTRY ilLoadL(ILenum Type, const void *Lump, ILuint Size)
 	       the filename of the file to load.
 	\return Boolean value of failure or success.  Returns IL_FALSE if all three loading methods
 	       have been tried and failed.*/
-ILboolean ILAPIENTRY ilLoadImage(ILconst_string FileName)
+static ILboolean iLoadAnyFile(ILconst_string FileName)
 {
 	ILstring	Ext;
 	ILenum		Type;
@@ -2239,13 +2395,160 @@ ILboolean ILAPIENTRY ilLoadImage(ILconst_string FileName)
 		ilSetError(IL_INVALID_EXTENSION);
 		return IL_FALSE;
 	}
-	return ilLoad(Type, FileName);
+	return iLoadFile(Type, FileName);
 
 finish:
 	return bRet;
 }
 
 
+ILenum ILAPIENTRY ilDetermineTypeF(ILHANDLE File)
+{
+	iProbe	Probe;
+	ILenum	Type;
+
+	if (File == NULL)
+		return IL_TYPE_UNKNOWN;
+
+	iBeginProbe(&Probe);
+	Type = iDetermineTypeHandle(File);
+	iEndProbe(&Probe);
+
+	return Type;
+}
+
+
+ILenum ILAPIENTRY ilDetermineTypeL(const void *Lump, ILuint Size)
+{
+	iProbe	Probe;
+	ILenum	Type;
+
+	iBeginProbe(&Probe);
+	Type = iDetermineTypeLump(Lump, Size);
+	iEndProbe(&Probe);
+
+	return Type;
+}
+
+
+ILboolean ILAPIENTRY ilIsValid(ILenum Type, ILconst_string FileName)
+{
+	iProbe		Probe;
+	ILboolean	bRet;
+
+	iBeginProbe(&Probe);
+	bRet = iIsValidFile(Type, FileName);
+	if (bRet)
+		iEndProbe(&Probe);
+
+	return bRet;
+}
+
+
+ILboolean ILAPIENTRY ilIsValidF(ILenum Type, ILHANDLE File)
+{
+	iProbe		Probe;
+	ILboolean	bRet;
+
+	iBeginProbe(&Probe);
+	bRet = iIsValidHandle(Type, File);
+	if (bRet)
+		iEndProbe(&Probe);
+
+	return bRet;
+}
+
+
+ILboolean ILAPIENTRY ilIsValidL(ILenum Type, void *Lump, ILuint Size)
+{
+	iProbe		Probe;
+	ILboolean	bRet;
+
+	iBeginProbe(&Probe);
+	bRet = iIsValidLump(Type, Lump, Size);
+	if (bRet)
+		iEndProbe(&Probe);
+
+	return bRet;
+}
+
+
+ILboolean ILAPIENTRY ilLoad(ILenum Type, ILconst_string FileName)
+{
+	ILimage		*Target = iCurImage;
+	ILboolean	bRet, WasLoading = iLoadingImage;
+	iProbe		Probe;
+
+	if (iCurImage == NULL) {
+		ilSetError(IL_ILLEGAL_OPERATION);
+		return IL_FALSE;
+	}
+
+	iBeginProbe(&Probe);
+	iLoadingImage = IL_TRUE;
+	bRet = iLoadFile(Type, FileName);
+
+	return iEndLoad(bRet, Target, WasLoading, &Probe);
+}
+
+
+ILboolean ILAPIENTRY ilLoadF(ILenum Type, ILHANDLE File)
+{
+	ILimage		*Target = iCurImage;
+	ILboolean	bRet, WasLoading = iLoadingImage;
+	iProbe		Probe;
+
+	if (iCurImage == NULL) {
+		ilSetError(IL_ILLEGAL_OPERATION);
+		return IL_FALSE;
+	}
+
+	iBeginProbe(&Probe);
+	iLoadingImage = IL_TRUE;
+	bRet = iLoadHandle(Type, File);
+
+	return iEndLoad(bRet, Target, WasLoading, &Probe);
+}
+
+
+ILboolean ILAPIENTRY ilLoadL(ILenum Type, const void *Lump, ILuint Size)
+{
+	ILimage		*Target = iCurImage;
+	ILboolean	bRet, WasLoading = iLoadingImage;
+	iProbe		Probe;
+
+	if (iCurImage == NULL) {
+		ilSetError(IL_ILLEGAL_OPERATION);
+		return IL_FALSE;
+	}
+
+	iBeginProbe(&Probe);
+	iLoadingImage = IL_TRUE;
+	bRet = iLoadLump(Type, Lump, Size);
+
+	return iEndLoad(bRet, Target, WasLoading, &Probe);
+}
+
+
+ILboolean ILAPIENTRY ilLoadImage(ILconst_string FileName)
+{
+	ILimage		*Target = iCurImage;
+	ILboolean	bRet, WasLoading = iLoadingImage;
+	iProbe		Probe;
+
+	if (iCurImage == NULL) {
+		ilSetError(IL_ILLEGAL_OPERATION);
+		return IL_FALSE;
+	}
+
+	iBeginProbe(&Probe);
+	iLoadingImage = IL_TRUE;
+	bRet = iLoadAnyFile(FileName);
+
+	return iEndLoad(bRet, Target, WasLoading, &Probe);
+}
+
+
 //! Attempts to save an image to a file.  The file format is specified by the user.
 /*! \param Type Format of this file.  Acceptable values are IL_BMP, IL_CHEAD, IL_DDS, IL_EXR,
 	IL_HDR, IL_JP2, IL_JPG, IL_PCX, IL_PNG, IL_PNM, IL_PSD, IL_RAW, IL_SGI, IL_TGA, IL_TIF,
diff --git a/DevIL/src-IL/src/il_stack.cpp b/DevIL/src-IL/src/il_stack.cpp
index 47b247f..cec2cf2 100644
--- a/DevIL/src-IL/src/il_stack.cpp
+++ b/DevIL/src-IL/src/il_stack.cpp
@@ -545,6 +545,30 @@ ILAPI void ILAPIENTRY ilSetCurImage(ILimage *Image)
 }
 
 
+static ILboolean iIsInChain(const ILimage *Chain, const ILimage *Image)
+{
+	for (; Chain != NULL; Chain = Chain->Next) {
+		if (Chain == Image || iIsInChain(Chain->Mipmaps, Image) || iIsInChain(Chain->Faces, Image) || iIsInChain(Chain->Layers, Image))
+			return IL_TRUE;
+	}
+	return IL_FALSE;
+}
+
+
+// Makes Image the current one again if it still is part of the bound image, and else the bound image itself.
+//	Returns IL_FALSE if no image is bound.
+ILboolean iReselectImage(ILimage *Image)
+{
+	ILimage *Base = ImageStack != NULL && CurName < StackSize ? ImageStack[CurName] : NULL;
+
+	if (Base == NULL)
+		return IL_FALSE;
+	iCurImage = iIsInChain(Base, Image) ? Image : Base;
+	ParentImage = iCurImage == Base;
+	return IL_TRUE;
+}
+
+
 // Completely replaces the current image and the version in the image stack.
 ILAPI void ILAPIENTRY ilReplaceCurImage(ILimage *Image)
 {
-- 
2.43.0


From 68ab323dee9e94627fb94ea7b17d8a83334d450e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:33 +0000
Subject: [PATCH 023/115] fix: Sun raster colour maps, 1-bit and 32-bit images
 and byte encoding

---
 DevIL/src-IL/src/il_sun.cpp | 317 +++++++++++++++++-------------------
 1 file changed, 145 insertions(+), 172 deletions(-)

diff --git a/DevIL/src-IL/src/il_sun.cpp b/DevIL/src-IL/src/il_sun.cpp
index 61f6ba4..960967b 100644
--- a/DevIL/src-IL/src/il_sun.cpp
+++ b/DevIL/src-IL/src/il_sun.cpp
@@ -18,7 +18,6 @@
 
 ILboolean	iLoadSunInternal(void);
 ILboolean	iIsValidSun(void);
-ILuint		iSunGetRle(ILubyte *Data, ILuint Length);
 
 typedef struct SUNHEAD
 {
@@ -130,8 +129,9 @@ ILboolean iCheckSun(SUNHEAD *Header)
 	// Color map cannot be 0 if there is a map indicated.
 	if (Header->ColorMapType > IL_SUN_NO_MAP && Header->ColorMapLength == 0)
 		return IL_FALSE;
-	//@TODO: These wouldn't make sense.  Are they valid somehow?  Find out...
-	if ((Header->Depth == 1 || Header->Depth == 32) && Header->Type == IL_SUN_BYTE_ENC)
+	// A color map can hold at most 256 entries of 3 bytes.
+	if (Header->ColorMapType == IL_SUN_RGB_MAP && Header->Depth <= 8 &&
+		(Header->ColorMapLength % 3 != 0 || Header->ColorMapLength > 256 * 3))
 		return IL_FALSE;
 
 	return IL_TRUE;
@@ -196,201 +196,174 @@ ILboolean ilLoadSunL(const void *Lump, ILuint Size)
 }
 
 
-ILboolean iLoadSunInternal(void)
+// State of the decoder of byte-encoded data.  A run may cross the end of a scanline.
+typedef struct SUNRLE
 {
-	SUNHEAD	Header;
-	BITFILE	*File;
-	ILuint	i, j, Padding, Offset, BytesRead;
-	ILubyte	PaddingData[16];
+	ILboolean	Encoded;
+	ILuint		Count;   // Bytes left in the current run
+	ILubyte		Value;
+} SUNRLE;
 
-	if (iCurImage == NULL) {
-		ilSetError(IL_ILLEGAL_OPERATION);
-		return IL_FALSE;
-	}
 
-	//@TODO: Right now, iGetSunHead cannot fail.
-	if (!iGetSunHead(&Header) || !iCheckSun(&Header)) {
-		ilSetError(IL_INVALID_FILE_HEADER);
-		return IL_FALSE;
-	}
-
-	switch (Header.Depth)
-	{
-		case 1:  //@TODO: Find a file to test this on.
-			File = bfile(iGetFile());
-			if (File == NULL)
-				return IL_FALSE;
-
-			if (!ilTexImage(Header.Width, Header.Height, 1, 1, IL_COLOUR_INDEX, IL_UNSIGNED_BYTE, NULL))
-				return IL_FALSE;
-			if (Header.ColorMapLength != 0) {
-				// Data should be an index into the color map, but the color map should only be RGB (6 bytes, 2 entries).
-				if (Header.ColorMapLength != 6) {
-					ilSetError(IL_INVALID_FILE_HEADER);
-					return IL_FALSE;
-				}
-			}
-			iCurImage->Pal.Palette = (ILubyte*)ialloc(6);  // Just need 2 entries in the color map.
-			if (Header.ColorMapLength == 0) {  // Create the color map
-				iCurImage->Pal.Palette[0] = 0x00;  // Entry for black
-				iCurImage->Pal.Palette[1] = 0x00;
-				iCurImage->Pal.Palette[2] = 0x00;
-				iCurImage->Pal.Palette[3] = 0xFF;  // Entry for white
-				iCurImage->Pal.Palette[4] = 0xFF;
-				iCurImage->Pal.Palette[5] = 0xFF;
-			}
-			else {
-				iread(iCurImage->Pal.Palette, 1, 6);  // Read in the color map.
-			}
-			iCurImage->Pal.PalSize = 6;
-			iCurImage->Pal.PalType = IL_PAL_RGB24;
+// Gets the next byte of the image data.
+static ILint iSunGetByte(SUNRLE *Rle)
+{
+	ILint c, Count;
 
-			Padding = (16 - (iCurImage->Width % 16)) % 16;  // Has to be aligned on a 16-bit boundary.  The rest is padding.
+	if (!Rle->Encoded)
+		return igetc();
+	if (Rle->Count > 0) {
+		Rle->Count--;
+		return Rle->Value;
+	}
+	c = igetc();
+	if (c != 0x80)  // Also covers IL_EOF
+		return c;
+	Count = igetc();
+	if (Count == IL_EOF)
+		return IL_EOF;
+	if (Count == 0)  // 1 byte of value 0x80
+		return 0x80;
+	c = igetc();
+	if (c == IL_EOF)
+		return IL_EOF;
+	Rle->Value = (ILubyte)c;
+	Rle->Count = Count;  // The run is Count+1 bytes long.
+	return c;
+}
 
-			// Reads the bits
-			for (i = 0; i < iCurImage->Height; i++) {
-				bread(&iCurImage->Data[iCurImage->Width * i], 1, iCurImage->Width, File);
-				//bseek(File, BitPadding, IL_SEEK_CUR);  //@TODO: This function does not work correctly.
-				bread(PaddingData, 1, Padding, File);  // Skip padding bits.
-			}
-			break;
 
+// Reads Length bytes of the image data.
+static ILboolean iSunGetLine(SUNRLE *Rle, ILubyte *Line, ILuint Length)
+{
+	ILuint	i;
+	ILint	c;
 
-		case 8:
-			if (Header.ColorMapType == IL_SUN_NO_MAP) {  // Greyscale image
-				if (!ilTexImage(Header.Width, Header.Height, 1, 1, IL_LUMINANCE, IL_UNSIGNED_BYTE, NULL))
-					return IL_FALSE;
-			}
-			else {  // Colour-mapped image
-				if (!ilTexImage(Header.Width, Header.Height, 1, 1, IL_COLOUR_INDEX, IL_UNSIGNED_BYTE, NULL))
-					return IL_FALSE;
-				iCurImage->Pal.Palette = (ILubyte*)ialloc(Header.ColorMapLength);  // Allocate color map.
-				if (iCurImage->Pal.Palette == NULL)
-					return IL_FALSE;
-				if (iread(iCurImage->Pal.Palette, 1, Header.ColorMapLength) != Header.ColorMapLength) {  // Read color map.
-					ilSetError(IL_FILE_READ_ERROR);
-					return IL_FALSE;
-				}
-
-				iCurImage->Pal.PalSize = Header.ColorMapLength;
-				iCurImage->Pal.PalType = IL_PAL_RGB24;
-			}
+	for (i = 0; i < Length; i++) {
+		c = iSunGetByte(Rle);
+		if (c == IL_EOF)
+			return IL_FALSE;
+		Line[i] = (ILubyte)c;
+	}
+	return IL_TRUE;
+}
 
-			if (Header.Type != IL_SUN_BYTE_ENC) {  // Regular uncompressed image data
-				Padding = (2 - (iCurImage->Bps % 2)) % 2;  // Must be padded on a 16-bit boundary (2 bytes)
-				for (i = 0; i < Header.Height; i++) {
-					iread(iCurImage->Data + i * Header.Width, 1, iCurImage->Bps);
-					if (Padding)  // Only possible for padding to be 0 or 1.
-						igetc();
-				}
-			}
-			else {  // RLE image data
-				for (i = 0; i < iCurImage->Height; i++) {
-					BytesRead = iSunGetRle(iCurImage->Data + iCurImage->Bps * i, iCurImage->Bps);
-					if (BytesRead % 2)  // Each scanline must be aligned on a 2-byte boundary.
-						igetc();  // Skip padding
-				}
-			}
-			break;
 
-		case 24:
-			if (Header.ColorMapLength > 0)  // Ignore any possible colormaps.
-				iseek(Header.ColorMapLength, IL_SEEK_CUR);
+// Reads the color map: all the red values, then all the green ones, then all the blue ones.
+static ILboolean iSunGetMap(ILuint Length)
+{
+	ILubyte	Map[256 * 3];
+	ILuint	i, Num = Length / 3;
 
-			if (Header.Type == IL_SUN_RGB) {
-				if (!ilTexImage(Header.Width, Header.Height, 1, 3, IL_RGB, IL_UNSIGNED_BYTE, NULL))
-					return IL_FALSE;
-			}
-			else {
-				if (!ilTexImage(Header.Width, Header.Height, 1, 3, IL_BGR, IL_UNSIGNED_BYTE, NULL))
-					return IL_FALSE;
-			}
+	if (Length > sizeof(Map) || iread(Map, 1, Length) != Length) {
+		ilSetError(IL_FILE_READ_ERROR);
+		return IL_FALSE;
+	}
+	iCurImage->Pal.Palette = (ILubyte*)ialloc(Num * 3);
+	if (iCurImage->Pal.Palette == NULL)
+		return IL_FALSE;
+	iCurImage->Pal.PalSize = Num * 3;
+	iCurImage->Pal.PalType = IL_PAL_RGB24;
+	for (i = 0; i < Num; i++) {
+		iCurImage->Pal.Palette[i * 3 + 0] = Map[i];
+		iCurImage->Pal.Palette[i * 3 + 1] = Map[Num + i];
+		iCurImage->Pal.Palette[i * 3 + 2] = Map[Num * 2 + i];
+	}
+	return IL_TRUE;
+}
 
-			if (Header.Type != IL_SUN_BYTE_ENC) {  // Regular uncompressed image data
-				Padding = (2 - (iCurImage->Bps % 2)) % 2;  // Must be padded on a 16-bit boundary (2 bytes)
-				for (i = 0; i < Header.Height; i++) {
-					iread(iCurImage->Data + i * Header.Width * 3, 1, iCurImage->Bps);
-					if (Padding)  // Only possible for padding to be 0 or 1.
-						igetc();
-				}
-			}
-			else {  // RLE image data
-				for (i = 0; i < iCurImage->Height; i++) {
-					BytesRead = iSunGetRle(iCurImage->Data + iCurImage->Bps * i, iCurImage->Bps);
-					if (BytesRead % 2)  // Each scanline must be aligned on a 2-byte boundary.
-						igetc();  // Skip padding
-				}
-			}
 
-			break;
+ILboolean iLoadSunInternal(void)
+{
+	SUNHEAD	Header;
+	SUNRLE	Rle;
+	ILuint	i, j, LineLen;
+	ILubyte	*Line, *Dest;
+	ILenum	Format;
 
-		case 32:
-			if (Header.ColorMapLength > 0)  // Ignore any possible colormaps.
-				iseek(Header.ColorMapLength, IL_SEEK_CUR);
+	if (iCurImage == NULL) {
+		ilSetError(IL_ILLEGAL_OPERATION);
+		return IL_FALSE;
+	}
 
-			if (Header.Type == IL_SUN_RGB) {
-				if (!ilTexImage(Header.Width, Header.Height, 1, 3, IL_RGB, IL_UNSIGNED_BYTE, NULL))
-					return IL_FALSE;
-			}
-			else {
-				if (!ilTexImage(Header.Width, Header.Height, 1, 3, IL_BGR, IL_UNSIGNED_BYTE, NULL))
-					return IL_FALSE;
-			}
+	//@TODO: Right now, iGetSunHead cannot fail.
+	if (!iGetSunHead(&Header) || !iCheckSun(&Header)) {
+		ilSetError(IL_INVALID_FILE_HEADER);
+		return IL_FALSE;
+	}
 
-			// There is no padding at the end of each scanline.
-			Offset = 0;
-			for (i = 0; i < Header.Height; i++) {
-				for (j = 0; j < Header.Width; j++) {
-					igetc();  // There is a pad byte before each pixel.
-					iCurImage->Data[Offset]   = igetc();
-					iCurImage->Data[Offset+1] = igetc();
-					iCurImage->Data[Offset+2] = igetc();
-				}
-			}
-			break;
+	if (Header.Depth == 1)
+		Format = IL_COLOUR_INDEX;
+	else if (Header.Depth == 8)
+		Format = Header.ColorMapType == IL_SUN_NO_MAP ? IL_LUMINANCE : IL_COLOUR_INDEX;
+	else
+		Format = Header.Type == IL_SUN_RGB ? IL_RGB : IL_BGR;
 
+	if (!ilTexImage(Header.Width, Header.Height, 1, Header.Depth <= 8 ? 1 : 3, Format, IL_UNSIGNED_BYTE, NULL))
+		return IL_FALSE;
+	iCurImage->Origin = IL_ORIGIN_UPPER_LEFT;
 
-		default:  // Should have already been checked with iGetSunHead.
+	if (Header.ColorMapType == IL_SUN_NO_MAP && Header.Depth == 1) {
+		// Without a color map, 1 is black.
+		iCurImage->Pal.Palette = (ILubyte*)ialloc(6);
+		if (iCurImage->Pal.Palette == NULL)
 			return IL_FALSE;
+		memset(iCurImage->Pal.Palette, 0xFF, 3);
+		memset(iCurImage->Pal.Palette + 3, 0, 3);
+		iCurImage->Pal.PalSize = 6;
+		iCurImage->Pal.PalType = IL_PAL_RGB24;
 	}
+	else if (Format == IL_COLOUR_INDEX) {
+		if (!iSunGetMap(Header.ColorMapLength))
+			return IL_FALSE;
+	}
+	else if (Header.ColorMapLength > 0)  // Ignore any possible colormaps.
+		iseek(Header.ColorMapLength, IL_SEEK_CUR);
+
+	// Each scanline is padded to a 16-bit boundary.
+	if (Header.Depth == 1)
+		LineLen = (Header.Width / 8) + (Header.Width % 8 != 0);
+	else if (Header.Depth == 32)
+		LineLen = Header.Width * 4;
+	else
+		LineLen = iCurImage->Bps;
+	if (Header.Depth == 32 && LineLen / 4 != Header.Width) {
+		ilSetError(IL_INVALID_FILE_HEADER);
+		return IL_FALSE;
+	}
+	LineLen += LineLen & 1;
 
-	iCurImage->Origin = IL_ORIGIN_UPPER_LEFT;
-	return ilFixImage();
-}
-
+	Line = (ILubyte*)ialloc(LineLen);
+	if (Line == NULL)
+		return IL_FALSE;
 
-ILuint iSunGetRle(ILubyte *Data, ILuint Length)
-{
-	ILuint	i = 0, j;
-	ILubyte	Flag, Value;
-	ILuint	Count;
-
-	for (i = 0; i < Length; ) {
-		Flag = igetc();
-		if (Flag == 0x80) {  // Run follows (or 1 byte of 0x80)
-			Count = igetc();
-			if (Count == 0) {  // 1 pixel of value (0x80)
-				*Data = 0x80;
-				Data++;
-				i++;
-			}
-			else {  // Here we have a run.
-				Value = igetc();
-				Count++;  // Should really be Count+1
-				for (j = 0; j < Count && i + j < Length; j++, Data++) {
-					*Data = Value;
-				}
-				i += Count;
+	Rle.Encoded = (Header.Type == IL_SUN_BYTE_ENC);
+	Rle.Count = 0;
+	for (i = 0; i < iCurImage->Height; i++) {
+		if (!iSunGetLine(&Rle, Line, LineLen)) {
+			// The padding of the last scanline may be missing.
+			if (i + 1 < iCurImage->Height || Header.Depth == 32 || (iCurImage->Bps & 1) == 0) {
+				ifree(Line);
+				ilSetError(IL_FILE_READ_ERROR);
+				return IL_FALSE;
 			}
 		}
-		else {  // 1 byte of this value (cannot be 0x80)
-			*Data = Flag;
-			Data++;
-			i++;
+		Dest = iCurImage->Data + i * iCurImage->Bps;
+		if (Header.Depth == 1) {
+			for (j = 0; j < iCurImage->Width; j++)
+				Dest[j] = (Line[j / 8] >> (7 - j % 8)) & 1;
+		}
+		else if (Header.Depth == 32) {  // There is a pad byte before each pixel.
+			for (j = 0; j < iCurImage->Width; j++)
+				memcpy(Dest + j * 3, Line + j * 4 + 1, 3);
+		}
+		else {
+			memcpy(Dest, Line, iCurImage->Bps);
 		}
 	}
+	ifree(Line);
 
-	return i;
+	return ilFixImage();
 }
 
 
-- 
2.43.0


From bec788d05acd11bff815a829f0cb2ecc1fff4516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:33 +0000
Subject: [PATCH 024/115] fix: BMP short OS/2 files, palettes and run-length
 padding

---
 DevIL/src-IL/src/il_bmp.cpp | 100 +++++++++++++++++-------------------
 1 file changed, 47 insertions(+), 53 deletions(-)

diff --git a/DevIL/src-IL/src/il_bmp.cpp b/DevIL/src-IL/src/il_bmp.cpp
index 0ba5ef0..48577cd 100644
--- a/DevIL/src-IL/src/il_bmp.cpp
+++ b/DevIL/src-IL/src/il_bmp.cpp
@@ -117,15 +117,17 @@ ILboolean iIsValidBmp()
 	BMPHEAD		Head;
 	OS2_HEAD	Os2Head;
 	ILboolean	IsValid;
+	ILuint		FirstPos;
 
+	// The OS/2 header is shorter, so the file may be too.
+	FirstPos = itell();
 	iGetBmpHead(&Head);
-	iseek(-(ILint)sizeof(BMPHEAD), IL_SEEK_CUR);  // Go ahead and restore to previous state
+	iseek(FirstPos, IL_SEEK_SET);  // Go ahead and restore to previous state
 
 	IsValid = iCheckBmp(&Head);
 	if (!IsValid) {
-		iGetOS2Head(&Os2Head);
-		iseek(-(ILint)sizeof(BMPHEAD), IL_SEEK_CUR);
-		IsValid = iCheckOS2(&Os2Head);
+		IsValid = iGetOS2Head(&Os2Head) && iCheckOS2(&Os2Head);
+		iseek(FirstPos, IL_SEEK_SET);
 	}
 	return IsValid;
 }
@@ -137,7 +139,9 @@ ILboolean iCheckBmp (const BMPHEAD * CONST_RESTRICT Header)
 	//if ((Header->bfType != ('B'|('M'<<8))) || ((Header->biSize != 0x28) && (Header->biSize != 0x0C)))
 	if ((Header->bfType != ('B'|('M'<<8))) || (Header->biSize != 0x28))
 		return IL_FALSE;
-	if (Header->biHeight == 0 || Header->biWidth < 1)
+	if (Header->biHeight == 0 || Header->biHeight == (ILint)0x80000000 || Header->biWidth < 1)
+		return IL_FALSE;
+	if (Header->biBitCount <= 8 && (Header->biClrUsed < 0 || Header->biClrUsed > 256))
 		return IL_FALSE;
 	if (Header->biPlanes > 1)  // Not sure...
 		return IL_FALSE;
@@ -216,17 +220,18 @@ ILboolean iLoadBitmapInternal()
 	BMPHEAD		Header;
 	OS2_HEAD	Os2Head;
 	ILboolean	bBitmap;
+	ILuint		FirstPos;
 
 	if (iCurImage == NULL) {
 		ilSetError(IL_ILLEGAL_OPERATION);
 		return IL_FALSE;
 	}
 
+	FirstPos = itell();
 	iGetBmpHead(&Header);
 	if (!iCheckBmp(&Header)) {
-		iseek(-(ILint)sizeof(BMPHEAD), IL_SEEK_CUR);
-		iGetOS2Head(&Os2Head);
-		if (!iCheckOS2(&Os2Head)) {
+		iseek(FirstPos, IL_SEEK_SET);
+		if (!iGetOS2Head(&Os2Head) || !iCheckOS2(&Os2Head)) {
 			ilSetError(IL_INVALID_FILE_HEADER);
 			return IL_FALSE;
 		}
@@ -267,6 +272,30 @@ ILboolean iLoadBitmapInternal()
 }
 
 
+// Reads the palette, which has biClrUsed entries if that is not 0.
+static ILboolean iGetBmpPal(const BMPHEAD *Header, ILuint MinEntries, ILuint FullEntries)
+{
+	ILuint Stored = Header->biClrUsed ? (ILuint)Header->biClrUsed : FullEntries;
+	ILuint Num = Stored;
+
+	if (Num < MinEntries)
+		Num = MinEntries;
+	if (Num > FullEntries)
+		Num = FullEntries;
+	if (Stored > Num)
+		Stored = Num;
+
+	iCurImage->Pal.Palette = (ILubyte*)icalloc(Num, 4);
+	if (iCurImage->Pal.Palette == NULL)
+		return IL_FALSE;
+	iCurImage->Pal.PalType = IL_PAL_BGR32;
+	iCurImage->Pal.PalSize = Num * 4;
+
+	iseek(sizeof(BMPHEAD), IL_SEEK_SET);
+	return iread(iCurImage->Pal.Palette, 4, Stored) == Stored;
+}
+
+
 // Reads an uncompressed .bmp
 //	One of the absolute ugliest functions I've ever written!
 ILboolean ilReadUncompBmp(BMPHEAD * Header)
@@ -297,29 +326,20 @@ ILboolean ilReadUncompBmp(BMPHEAD * Header)
 		case 1:
 			//iCurImage->Format = IL_LUMINANCE;
 			iCurImage->Format = IL_COLOUR_INDEX;
-			iCurImage->Pal.PalType = IL_PAL_BGR32;
-			iCurImage->Pal.PalSize = 2 * 4;
-			iCurImage->Pal.Palette = (ILubyte*)ialloc(iCurImage->Pal.PalSize);
-			if (iCurImage->Pal.Palette == NULL) {
+			if (!iGetBmpPal(Header, 2, 2))
 				return IL_FALSE;
-			}
 			break;
 
 		case 4:
+			iCurImage->Format = IL_COLOUR_INDEX;
+			if (!iGetBmpPal(Header, 16, 16))
+				return IL_FALSE;
+			break;
+
 		case 8:
 			iCurImage->Format = IL_COLOUR_INDEX;
-			iCurImage->Pal.PalType = IL_PAL_BGR32;
-			
-			// if there are 256 colors biClrUsed is 0
-			iCurImage->Pal.PalSize = Header->biClrUsed ? 
-					Header->biClrUsed * 4 : 256 * 4;
-			
-			if (Header->biBitCount == 4)  // biClrUsed is 0 for 4-bit bitmaps
-				iCurImage->Pal.PalSize = 16 * 4;
-			iCurImage->Pal.Palette = (ILubyte*)ialloc(iCurImage->Pal.PalSize);
-			if (iCurImage->Pal.Palette == NULL) {
+			if (!iGetBmpPal(Header, 1, 256))
 				return IL_FALSE;
-			}
 			break;
 
 		case 16:
@@ -336,8 +356,6 @@ ILboolean ilReadUncompBmp(BMPHEAD * Header)
 	// A height of 0 is illegal
 	if (Header->biHeight == 0) {
 		ilSetError(IL_ILLEGAL_FILE_VALUE);
-		if (iCurImage->Pal.Palette)
-			ifree(iCurImage->Pal.Palette);
 		return IL_FALSE;
 	}
 
@@ -350,11 +368,6 @@ ILboolean ilReadUncompBmp(BMPHEAD * Header)
 		iCurImage->Origin = IL_ORIGIN_LOWER_LEFT;
 	}
 
-	// Read the palette
-	iseek(sizeof(BMPHEAD), IL_SEEK_SET);
-	if (iread(iCurImage->Pal.Palette, 1, iCurImage->Pal.PalSize) != iCurImage->Pal.PalSize)
-		return IL_FALSE;
-
 	// Seek to the data from the "beginning" of the file
 	iseek(Header->bfDataOff, IL_SEEK_SET);
 
@@ -565,12 +578,7 @@ ILboolean ilReadRLE8Bmp(BMPHEAD *Header)
 		return IL_FALSE;
 
 	iCurImage->Format = IL_COLOUR_INDEX;
-	iCurImage->Pal.PalType = IL_PAL_BGR32;
-	iCurImage->Pal.PalSize = Header->biClrUsed * 4;  // 256 * 4 for most images
-	if (iCurImage->Pal.PalSize == 0)
-		iCurImage->Pal.PalSize = 256 * 4;
-	iCurImage->Pal.Palette = (ILubyte*)ialloc(iCurImage->Pal.PalSize);
-	if (iCurImage->Pal.Palette == NULL)
+	if (!iGetBmpPal(Header, 1, 256))
 		return IL_FALSE;
 
 	// If the image height is negative, then the image is flipped
@@ -578,11 +586,6 @@ ILboolean ilReadRLE8Bmp(BMPHEAD *Header)
 	iCurImage->Origin = Header->biHeight < 0 ?
 		 IL_ORIGIN_UPPER_LEFT : IL_ORIGIN_LOWER_LEFT;
 	
-	// Read the palette
-	iseek(sizeof(BMPHEAD), IL_SEEK_SET);
-	if (iread(iCurImage->Pal.Palette, iCurImage->Pal.PalSize, 1) != 1)
-		return IL_FALSE;
-
 	// Seek to the data from the "beginning" of the file
 	iseek(Header->bfDataOff, IL_SEEK_SET);
 
@@ -610,7 +613,7 @@ ILboolean ilReadRLE8Bmp(BMPHEAD *Header)
 					if (iread(iCurImage->Data + offset, (ILuint)count, 1) != 1)
 						return IL_FALSE;
 					offset += count;
-					if ((count & 1) == 1)  // Must be on a word boundary
+					if ((Bytes[1] & 1) == 1)  // Must be on a word boundary
 						if (iread(Bytes, 1, 1) != 1)
 							return IL_FALSE;
 					break;
@@ -646,10 +649,7 @@ ILboolean ilReadRLE4Bmp(BMPHEAD *Header)
 	}
 
 	iCurImage->Format = IL_COLOUR_INDEX;
-	iCurImage->Pal.PalType = IL_PAL_BGR32;
-	iCurImage->Pal.PalSize = 16 * 4; //Header->biClrUsed * 4;  // 16 * 4 for most images
-	iCurImage->Pal.Palette = (ILubyte*)ialloc(iCurImage->Pal.PalSize);
-	if (iCurImage->Pal.Palette == NULL)
+	if (!iGetBmpPal(Header, 16, 16))
 		return IL_FALSE;
 
 	// If the image height is negative, then the image is flipped
@@ -657,12 +657,6 @@ ILboolean ilReadRLE4Bmp(BMPHEAD *Header)
 	iCurImage->Origin = Header->biHeight < 0 ?
 		 IL_ORIGIN_UPPER_LEFT : IL_ORIGIN_LOWER_LEFT;
 
-	// Read the palette
-	iseek(sizeof(BMPHEAD), IL_SEEK_SET);
-
-	if (iread(iCurImage->Pal.Palette, iCurImage->Pal.PalSize, 1) != 1)
-		return IL_FALSE;
-
 	// Seek to the data from the "beginning" of the file
 	iseek(Header->bfDataOff, IL_SEEK_SET);
 
-- 
2.43.0


From 38f327713d5433ddc586d91460511d6326eeb4f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:33 +0000
Subject: [PATCH 025/115] fix: GIF frames are clipped to the image, interlaced
 frames, palettes of later frames

---
 DevIL/src-IL/include/il_gif.h |   7 +-
 DevIL/src-IL/src/il_gif.cpp   | 419 ++++++++++++++++------------------
 2 files changed, 201 insertions(+), 225 deletions(-)

diff --git a/DevIL/src-IL/include/il_gif.h b/DevIL/src-IL/include/il_gif.h
index 98cc9e0..e033501 100644
--- a/DevIL/src-IL/include/il_gif.h
+++ b/DevIL/src-IL/include/il_gif.h
@@ -61,11 +61,10 @@ typedef struct GFXCONTROL
 ILboolean iLoadGifInternal(void);
 ILboolean ilLoadGifF(ILHANDLE File);
 ILboolean iIsValidGif(void);
-ILboolean iGetPalette(ILubyte Info, ILpal *Pal, ILboolean UsePrevPal, ILimage *PrevImage);
+ILboolean iGetPalette(ILubyte Info, ILpal *Pal);
 ILboolean GetImages(ILpal *GlobalPal, GIFHEAD *GifHead);
 ILboolean SkipExtensions(GFXCONTROL *Gfx);
-ILboolean GifGetData(ILimage *Image, ILubyte *Data, ILuint ImageSize, ILuint Width, ILuint Height, ILuint Stride, ILuint PalOffset, GFXCONTROL *Gfx);
-ILboolean RemoveInterlace(ILimage *image);
-ILboolean ConvertTransparent(ILimage *Image, ILubyte TransColour);
+ILboolean GifGetData(ILimage *Image, IMAGEDESC *Desc, ILuint PalOffset, GFXCONTROL *Gfx);
+ILboolean ConvertTransparent(ILimage *Image, ILuint TransColour);
 
 #endif//GIF_H
diff --git a/DevIL/src-IL/src/il_gif.cpp b/DevIL/src-IL/src/il_gif.cpp
index bf4013c..b987c35 100644
--- a/DevIL/src-IL/src/il_gif.cpp
+++ b/DevIL/src-IL/src/il_gif.cpp
@@ -133,6 +133,7 @@ ILboolean ilLoadGifL(const void *Lump, ILuint Size)
 // Internal function used to load the Gif.
 ILboolean iLoadGifInternal()
 {
+	ILboolean	bLoaded;
 	GIFHEAD	Header;
 	ILpal	GlobalPal;
 
@@ -145,7 +146,10 @@ ILboolean iLoadGifInternal()
 	GlobalPal.PalSize = 0;
 
 	//read header
-	iread(&Header.Sig, 1, 6);
+	if (iread(&Header.Sig, 1, 6) != 6) {
+		ilSetError(IL_INVALID_FILE_HEADER);
+		return IL_FALSE;
+	}
   	Header.Width = GetLittleUShort();
     Header.Height = GetLittleUShort();
 	Header.ColourInfo = igetc();
@@ -169,58 +173,39 @@ ILboolean iLoadGifInternal()
 
 	// Check for a global colour map.
 	if (Header.ColourInfo & (1 << 7)) {
-		if (!iGetPalette(Header.ColourInfo, &GlobalPal, IL_FALSE, NULL)) {
+		if (!iGetPalette(Header.ColourInfo, &GlobalPal)) {
 			return IL_FALSE;
 		}
 	}
 
-	if (!GetImages(&GlobalPal, &Header))
-		return IL_FALSE;
+	bLoaded = GetImages(&GlobalPal, &Header);
 
-	if (GlobalPal.Palette && GlobalPal.PalSize)
-		ifree(GlobalPal.Palette);
+	ifree(GlobalPal.Palette);
 	GlobalPal.Palette = NULL;
 	GlobalPal.PalSize = 0;
 
+	if (!bLoaded)
+		return IL_FALSE;
 	return ilFixImage();
 }
 
 
-ILboolean iGetPalette(ILubyte Info, ILpal *Pal, ILboolean UsePrevPal, ILimage *PrevImage)
+ILboolean iGetPalette(ILubyte Info, ILpal *Pal)
 {
-	ILuint PalSize, PalOffset = 0;
-
-	// If we have a local palette and have to use the previous frame as well,
-	//  we have to copy the palette from the previous frame, in addition
-	//  to the data, which we copy in GetImages.
-
 	// The ld(palettes bpp - 1) is stored in the lower
 	// 3 bits of Info (weird gif format ... :) )
-	PalSize = (1 << ((Info & 0x7) + 1)) * 3;
-	if (UsePrevPal) {
-		if (PrevImage == NULL) {  // Cannot use the previous palette if it does not exist.
-			ilSetError(IL_ILLEGAL_FILE_VALUE);
-			return IL_FALSE;
-		}
-		PalSize = PalSize + PrevImage->Pal.PalSize;
-		PalOffset = PrevImage->Pal.PalSize;
-	}
-	if (PalSize > 256 * 3) {
-		ilSetError(IL_ILLEGAL_FILE_VALUE);
-		return IL_FALSE;
-	}
-	Pal->PalSize = PalSize;
+	ILuint PalSize = (1 << ((Info & 0x7) + 1)) * 3;
 
-	Pal->PalType = IL_PAL_RGB24;
-	//Pal->Palette = (ILubyte*)ialloc(Pal->PalSize);
-	Pal->Palette = (ILubyte*)ialloc(256 * 3);
+	Pal->Palette = (ILubyte*)ialloc(PalSize);
 	if (Pal->Palette == NULL)
 		return IL_FALSE;
-	if (UsePrevPal)
-		memcpy(Pal->Palette, PrevImage->Pal.Palette, PrevImage->Pal.PalSize);  // Copy the old palette over.
-	if (iread(Pal->Palette + PalOffset, 1, Pal->PalSize) != Pal->PalSize) {  // Read the new palette.
+	Pal->PalSize = PalSize;
+	Pal->PalType = IL_PAL_RGB24;
+	if (iread(Pal->Palette, 1, PalSize) != PalSize) {  // Read the new palette.
 		ifree(Pal->Palette);
 		Pal->Palette = NULL;
+		Pal->PalSize = 0;
+		Pal->PalType = IL_PAL_NONE;
 		return IL_FALSE;
 	}
 
@@ -228,26 +213,85 @@ ILboolean iGetPalette(ILubyte Info, ILpal *Pal, ILboolean UsePrevPal, ILimage *P
 }
 
 
+// A frame drawn over the previous one keeps pixels which use the palette of the previous
+//  frame.  Puts that palette in front of the palette of the frame if both fit, otherwise
+//  the kept pixels get the nearest colours of the new palette.
+static ILboolean iKeepPrevPalette(ILimage *Image, ILimage *Prev, ILuint *PalOffset)
+{
+	ILubyte	*Pal, Map[256];
+	ILuint	PrevBpp = Prev->Pal.PalType == IL_PAL_RGBA32 ? 4 : 3;
+	ILuint	NumPrev = Prev->Pal.PalSize / PrevBpp, NumNew = Image->Pal.PalSize / 3;
+	ILuint	i, j, c, Best, BestDist, Dist;
+
+	*PalOffset = 0;
+	if (Image->Pal.PalType != IL_PAL_RGB24 || (Prev->Pal.PalType != IL_PAL_RGB24 && Prev->Pal.PalType != IL_PAL_RGBA32))
+		return IL_TRUE;
+	if (NumPrev == NumNew) {
+		for (i = 0; i < NumNew; i++) {
+			if (memcmp(Prev->Pal.Palette + i * PrevBpp, Image->Pal.Palette + i * 3, 3))
+				break;
+		}
+		if (i == NumNew)  // It is the same palette.
+			return IL_TRUE;
+	}
+
+	if (NumPrev + NumNew <= 256) {
+		Pal = (ILubyte*)ialloc((NumPrev + NumNew) * PrevBpp);
+		if (Pal == NULL)
+			return IL_FALSE;
+		memcpy(Pal, Prev->Pal.Palette, NumPrev * PrevBpp);
+		for (i = 0; i < NumNew; i++) {
+			memcpy(Pal + (NumPrev + i) * PrevBpp, Image->Pal.Palette + i * 3, 3);
+			if (PrevBpp == 4)
+				Pal[(NumPrev + i) * 4 + 3] = 0xFF;
+		}
+		ifree(Image->Pal.Palette);
+		Image->Pal.Palette = Pal;
+		Image->Pal.PalSize = (NumPrev + NumNew) * PrevBpp;
+		Image->Pal.PalType = Prev->Pal.PalType;
+		*PalOffset = NumPrev;
+		return IL_TRUE;
+	}
+
+	memset(Map, 0, sizeof(Map));
+	for (i = 0; i < NumPrev && i < 256; i++) {
+		Best = 0;
+		BestDist = ~0u;
+		for (j = 0; j < NumNew; j++) {
+			Dist = 0;
+			for (c = 0; c < 3; c++) {
+				ILint d = (ILint)Prev->Pal.Palette[i * PrevBpp + c] - (ILint)Image->Pal.Palette[j * 3 + c];
+				Dist += d * d;
+			}
+			if (Dist < BestDist) {
+				BestDist = Dist;
+				Best = j;
+			}
+		}
+		Map[i] = (ILubyte)Best;
+	}
+	for (i = 0; i < Image->SizeOfData; i++)
+		Image->Data[i] = Map[Image->Data[i]];
+	return IL_TRUE;
+}
+
+
 ILboolean GetImages(ILpal *GlobalPal, GIFHEAD *GifHead)
 {
-	IMAGEDESC	ImageDesc, OldImageDesc;
+	IMAGEDESC	ImageDesc;
 	GFXCONTROL	Gfx;
 	ILboolean	BaseImage = IL_TRUE;
-	ILimage		*Image = iCurImage, *TempImage = NULL, *PrevImage = NULL;
-	ILuint		NumImages = 0, i;
+	ILimage		*Image = iCurImage, *PrevImage = NULL;
 	ILint		input;
 	ILuint		PalOffset;
 
-	OldImageDesc.ImageInfo = 0; // to initialize the data with an harmless value 
 	Gfx.Used = IL_TRUE;
 
 	while (!ieof()) {
 		ILubyte DisposalMethod = 1;
 		
-		i = itell();
 		if (!SkipExtensions(&Gfx))
-			goto error_clean;
-		i = itell();
+			return IL_FALSE;
 
 		if (!Gfx.Used)
 			DisposalMethod = (Gfx.Packed & 0x1C) >> 2;
@@ -269,10 +313,9 @@ ILboolean GetImages(ILpal *GlobalPal, GIFHEAD *GifHead)
 
 
 		if (!BaseImage) {
-			NumImages++;
 			Image->Next = ilNewImage(iCurImage->Width, iCurImage->Height, 1, 1, 1);
 			if (Image->Next == NULL)
-				goto error_clean;
+				return IL_FALSE;
 			//20040612: DisposalMethod controls how the new images data is to be combined
 			//with the old image. 0 means that it doesn't matter how they are combined,
 			//1 means keep the old image, 2 means set to background color, 3 is
@@ -290,12 +333,6 @@ ILboolean GetImages(ILpal *GlobalPal, GIFHEAD *GifHead)
 					memset(Image->Next->Data, GifHead->Background, Image->SizeOfData);
 			else if (DisposalMethod == 1 || DisposalMethod == 0)
 				memcpy(Image->Next->Data, Image->Data, Image->SizeOfData);
-			//Interlacing has to be removed after the image was copied (line above)
-			if (OldImageDesc.ImageInfo & (1 << 6)) {  // Image is interlaced.
-				if (!RemoveInterlace(Image))
-					goto error_clean;
-			}
-
 			PrevImage = Image;
 			Image = Image->Next;
 			Image->Format = IL_COLOUR_INDEX;
@@ -314,25 +351,20 @@ ILboolean GetImages(ILpal *GlobalPal, GIFHEAD *GifHead)
 
 		// Check to see if the image has its own palette.
 		if (ImageDesc.ImageInfo & (1 << 7)) {
-			ILboolean UsePrevPal = IL_FALSE;
-			if (DisposalMethod == 1 && NumImages != 0) {  // Cannot be the first image for this.
-				PalOffset = PrevImage->Pal.PalSize;
-				UsePrevPal = IL_TRUE;
-			}
-			if (!iGetPalette(ImageDesc.ImageInfo, &Image->Pal, UsePrevPal, PrevImage)) {
-				goto error_clean;
-			}
+			if (!iGetPalette(ImageDesc.ImageInfo, &Image->Pal))
+				return IL_FALSE;
 		} else {
-			if (!iCopyPalette(&Image->Pal, GlobalPal)) {
-				goto error_clean;
-			}
+			if (!iCopyPalette(&Image->Pal, GlobalPal))
+				return IL_FALSE;
+		}
+		if (PrevImage != NULL && DisposalMethod != 2 && DisposalMethod != 3) {
+			if (!iKeepPrevPalette(Image, PrevImage, &PalOffset))
+				return IL_FALSE;
 		}
 
-		if (!GifGetData(Image, Image->Data + ImageDesc.OffX + ImageDesc.OffY*Image->Width, Image->SizeOfData,
-				ImageDesc.Width, ImageDesc.Height, Image->Width, PalOffset, &Gfx)) {
-			memset(Image->Data, 0, Image->SizeOfData);  //@TODO: Remove this.  For debugging purposes right now.
+		if (!GifGetData(Image, &ImageDesc, PalOffset, &Gfx)) {
 			ilSetError(IL_ILLEGAL_FILE_VALUE);
-			goto error_clean;
+			return IL_FALSE;
 		}
 
 		// See if there was a valid graphics control extension.
@@ -342,42 +374,22 @@ ILboolean GetImages(ILpal *GlobalPal, GIFHEAD *GifHead)
 
 			// See if a transparent colour is defined.
 			if (Gfx.Packed & 1) {
-				if (!ConvertTransparent(Image, Gfx.Transparent)) {
-					goto error_clean;
-				}
+				if (!ConvertTransparent(Image, Gfx.Transparent + PalOffset))
+					return IL_FALSE;
 	    	}
 		}
-		i = itell();
 		// Terminates each block.
-		if((input = igetc()) == IL_EOF)
-			goto error_clean;
+		if ((input = igetc()) == IL_EOF)
+			return IL_FALSE;
 
 		if (input != 0x00)
 		    iseek(-1, IL_SEEK_CUR);
-		//	break;
-
-		OldImageDesc = ImageDesc;
-	}
-
-	//Deinterlace last image
-	if (OldImageDesc.ImageInfo & (1 << 6)) {  // Image is interlaced.
-		if (!RemoveInterlace(Image))
-			goto error_clean;
 	}
 
 	if (BaseImage)  // Was not able to load any images in...
 		return IL_FALSE;
 
 	return IL_TRUE;
-
-error_clean:
-	Image = iCurImage->Next;
-    /*	while (Image) {
-		TempImage = Image;
-		Image = Image->Next;
-		ilCloseImage(TempImage);
-	}*/
-	return IL_FALSE;
 }
 
 
@@ -536,17 +548,71 @@ static void cleanUpGifLoadState()
 
 }
 
-ILboolean GifGetData(ILimage *Image, ILubyte *Data, ILuint ImageSize, ILuint Width, ILuint Height, ILuint Stride, ILuint PalOffset, GFXCONTROL *Gfx)
+// Where the next pixel of a frame goes
+typedef struct GIFPOS
+{
+	ILimage		*Image;
+	IMAGEDESC	*Desc;
+	ILuint		PalOffset;
+	ILint		Skip;  // This value leaves what was drawn before, -1 for none.
+	ILuint		x, y, Pass, Rows;
+} GIFPOS;
+
+
+/*From the GIF spec:
+
+  The rows of an Interlaced images are arranged in the following order:
+
+      Group 1 : Every 8th. row, starting with row 0.              (Pass 1)
+      Group 2 : Every 8th. row, starting with row 4.              (Pass 2)
+      Group 3 : Every 4th. row, starting with row 2.              (Pass 3)
+      Group 4 : Every 2nd. row, starting with row 1.              (Pass 4)
+*/
+
+static void GifPutPixel(GIFPOS *Pos, ILubyte Value)
+{
+	static const ILuint Start[4] = { 0, 4, 2, 1 }, Step[4] = { 8, 8, 4, 2 };
+	ILuint x = Pos->Desc->OffX + Pos->x, y = Pos->Desc->OffY + Pos->y;
+
+	if (Pos->Rows >= Pos->Desc->Height)  // The frame is complete.
+		return;
+	// The frame may reach beyond the image.
+	if (x < Pos->Image->Width && y < Pos->Image->Height && Value != Pos->Skip)
+		Pos->Image->Data[y * Pos->Image->Bps + x] = (ILubyte)(Value + Pos->PalOffset);
+
+	if (++Pos->x < Pos->Desc->Width)
+		return;
+	Pos->x = 0;
+	Pos->Rows++;
+	if (!(Pos->Desc->ImageInfo & (1 << 6))) {  // Not interlaced
+		Pos->y++;
+		return;
+	}
+	Pos->y += Step[Pos->Pass];
+	while (Pos->y >= Pos->Desc->Height && Pos->Pass < 3) {
+		Pos->Pass++;
+		Pos->y = Start[Pos->Pass];
+	}
+}
+
+
+ILboolean GifGetData(ILimage *Image, IMAGEDESC *Desc, ILuint PalOffset, GFXCONTROL *Gfx)
 {
 	ILubyte	*sp;
 	ILint	code, fc, oc;
-	ILubyte	DisposalMethod = 0;
 	ILint	c, size;
-	ILuint	i = 0, Read = 0, j = 0;
-	ILubyte	*DataPtr = Data;
+	GIFPOS	Pos;
+
+	if (Desc->Width == 0 || Desc->Height == 0)
+		return IL_FALSE;
+	memset(&Pos, 0, sizeof(Pos));
+	Pos.Image = Image;
+	Pos.Desc = Desc;
+	Pos.PalOffset = PalOffset;
+	Pos.Skip = -1;
+	if (!Gfx->Used && ((Gfx->Packed & 0x1C) >> 2) == 1 && (Gfx->Packed & 0x1) != 0)
+		Pos.Skip = Gfx->Transparent;
 
-	if (!Gfx->Used)
-		DisposalMethod = (Gfx->Packed & 0x1C) >> 2;
 	if((size = igetc()) == IL_EOF)
 		return IL_FALSE;
 
@@ -555,8 +621,8 @@ ILboolean GifGetData(ILimage *Image, ILubyte *Data, ILuint ImageSize, ILuint Wid
 	}
 
 	stack  = (ILubyte*)ialloc(MAX_CODES + 1);
-	suffix = (ILubyte*)ialloc(MAX_CODES + 1);
-	prefix = (ILshort*)ialloc(sizeof(*prefix) * (MAX_CODES + 1));
+	suffix = (ILubyte*)icalloc(MAX_CODES + 1, 1);
+	prefix = (ILshort*)icalloc(MAX_CODES + 1, sizeof(*prefix));
 	if (!stack || !suffix || !prefix)
 	{
 		cleanUpGifLoadState();
@@ -572,7 +638,7 @@ ILboolean GifGetData(ILimage *Image, ILubyte *Data, ILuint ImageSize, ILuint Wid
 	oc = fc = 0;
 	sp = stack;
 
-	while ((c = get_next_code()) != ending && Read < Height) {
+	while ((c = get_next_code()) != ending && Pos.Rows < Desc->Height) {
 		if (c == clear)
 		{
 			curr_size = size + 1;
@@ -584,57 +650,32 @@ ILboolean GifGetData(ILimage *Image, ILubyte *Data, ILuint ImageSize, ILuint Wid
 			if (c >= slot)
 				c = 0;
 			oc = fc = c;
-
-			if (DisposalMethod == 1 && !Gfx->Used && Gfx->Transparent == c && (Gfx->Packed & 0x1) != 0)
-				i++;
-			else if (i < Width)
-				DataPtr[i++] = c + PalOffset;
-
-			if (i == Width)
-			{
-				DataPtr += Stride;
-				i = 0;
-				Read += 1;
-                ++j;
-                if (j >= Height) {
-                   cleanUpGifLoadState();
-                   return IL_FALSE;
-                }
-			}
+			GifPutPixel(&Pos, (ILubyte)c);
 		}
 		else
 		{
-			code = c;
-            //BG-2007-01-10: several fixes for incomplete GIFs
-			if (code >= slot)
+			//BG-2007-01-10: several fixes for incomplete GIFs
+			if (c >= slot)
 			{
+				c = slot < MAX_CODES ? slot : oc;
 				code = oc;
-                if (sp >= stack + MAX_CODES) {
-                   cleanUpGifLoadState();
-                   return IL_FALSE;
-                }
-                *sp++ = fc;
+				*sp++ = fc;
 			}
+			else
+				code = c;
 
-            if (code >= MAX_CODES)
-                return IL_FALSE; 
-                while (code >= newcodes)
+			while (code >= newcodes)
+			{
+				if (sp >= stack + MAX_CODES || code >= MAX_CODES)
 				{
-                    if (sp >= stack + MAX_CODES)
-					{
-                        cleanUpGifLoadState();
-                        return IL_FALSE;
-                    }
-                    *sp++ = suffix[code];
-                    code = prefix[code];
-                }
-            
-                if (sp >= stack + MAX_CODES) {
-                cleanUpGifLoadState();
-                return IL_FALSE;
-            }
-
-            *sp++ = (ILbyte)code;
+					cleanUpGifLoadState();
+					return IL_FALSE;
+				}
+				*sp++ = suffix[code];
+				code = prefix[code];
+			}
+
+			*sp++ = (ILubyte)code;
 			if (slot < top_slot)
 			{
 				fc = code;
@@ -648,22 +689,7 @@ ILboolean GifGetData(ILimage *Image, ILubyte *Data, ILuint ImageSize, ILuint Wid
 				curr_size++;
 			}
 			while (sp > stack)
-			{
-				sp--;
-				if (DisposalMethod == 1 && !Gfx->Used && Gfx->Transparent == *sp && (Gfx->Packed & 0x1) != 0)
-					i++;
-				else if (i < Width)
-					DataPtr[i++] = *sp + PalOffset;
-
-				if (i == Width)
-				{
-					i = 0;
-					Read += 1;
-                    j = (j+1) % Height;
-					// Needs to start from Data, not Image->Data.
-					DataPtr = Data + j * Stride;
-				}
-			}
+				GifPutPixel(&Pos, *--sp);
 		}
 	}
 	cleanUpGifLoadState();
@@ -671,83 +697,34 @@ ILboolean GifGetData(ILimage *Image, ILubyte *Data, ILuint ImageSize, ILuint Wid
 }
 
 
-/*From the GIF spec:
-
-  The rows of an Interlaced images are arranged in the following order:
-
-      Group 1 : Every 8th. row, starting with row 0.              (Pass 1)
-      Group 2 : Every 8th. row, starting with row 4.              (Pass 2)
-      Group 3 : Every 4th. row, starting with row 2.              (Pass 3)
-      Group 4 : Every 2nd. row, starting with row 1.              (Pass 4)
-*/
-
-ILboolean RemoveInterlace(ILimage *image)
-{
-	ILubyte *NewData;
-	ILuint	i, j = 0;
-
-	NewData = (ILubyte*)ialloc(image->SizeOfData);
-	if (NewData == NULL)
-		return IL_FALSE;
-
-	//changed 20041230: images with offsety != 0 were not
-	//deinterlaced correctly before...
-	for (i = 0; i < image->OffY; i++, j++) {
-		memcpy(&NewData[i * image->Bps], &image->Data[j * image->Bps], image->Bps);
-	}
-
-	for (i = 0 + image->OffY; i < image->Height; i += 8, j++) {
-		memcpy(&NewData[i * image->Bps], &image->Data[j * image->Bps], image->Bps);
-	}
-
-	for (i = 4 + image->OffY; i < image->Height; i += 8, j++) {
-		memcpy(&NewData[i * image->Bps], &image->Data[j * image->Bps], image->Bps);
-	}
-
-	for (i = 2 + image->OffY; i < image->Height; i += 4, j++) {
-		memcpy(&NewData[i * image->Bps], &image->Data[j * image->Bps], image->Bps);
-	}
-
-	for (i = 1 + image->OffY; i < image->Height; i += 2, j++) {
-		memcpy(&NewData[i * image->Bps], &image->Data[j * image->Bps], image->Bps);
-	}
-
-	ifree(image->Data);
-	image->Data = NewData;
-
-	return IL_TRUE;
-}
-
-
 // Uses the transparent colour index to make an alpha channel.
-ILboolean ConvertTransparent(ILimage *Image, ILubyte TransColour)
+ILboolean ConvertTransparent(ILimage *Image, ILuint TransColour)
 {
 	ILubyte	*Palette;
-	ILuint	i, j;
+	ILuint	i, Num;
 
 	if (!Image->Pal.Palette || !Image->Pal.PalSize) {
 		ilSetError(IL_INTERNAL_ERROR);
 		return IL_FALSE;
 	}
 
-	Palette = (ILubyte*)ialloc(Image->Pal.PalSize / 3 * 4);
-	if (Palette == NULL)
-		return IL_FALSE;
+	if (Image->Pal.PalType != IL_PAL_RGBA32) {
+		Num = Image->Pal.PalSize / 3;
+		Palette = (ILubyte*)ialloc(Num * 4);
+		if (Palette == NULL)
+			return IL_FALSE;
+		for (i = 0; i < Num; i++) {
+			memcpy(Palette + i * 4, Image->Pal.Palette + i * 3, 3);
+			Palette[i * 4 + 3] = 0xFF;
+		}
 
-	for (i = 0, j = 0; i < Image->Pal.PalSize; i += 3, j += 4) {
-		Palette[j  ] = Image->Pal.Palette[i  ];
-		Palette[j+1] = Image->Pal.Palette[i+1];
-		Palette[j+2] = Image->Pal.Palette[i+2];
-		if (j/4 == TransColour)
-			Palette[j+3] = 0x00;
-		else
-			Palette[j+3] = 0xFF;
+		ifree(Image->Pal.Palette);
+		Image->Pal.Palette = Palette;
+		Image->Pal.PalSize = Num * 4;
+		Image->Pal.PalType = IL_PAL_RGBA32;
 	}
-
-	ifree(Image->Pal.Palette);
-	Image->Pal.Palette = Palette;
-	Image->Pal.PalSize = Image->Pal.PalSize / 3 * 4;
-	Image->Pal.PalType = IL_PAL_RGBA32;
+	if (TransColour < Image->Pal.PalSize / 4)
+		Image->Pal.Palette[TransColour * 4 + 3] = 0x00;
 
 	return IL_TRUE;
 }
-- 
2.43.0


From 3d43e310eee904a786403869bf7a50eda679eb58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:33 +0000
Subject: [PATCH 026/115] fix: Targa 15-bit colour maps

---
 DevIL/src-IL/src/il_targa.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/DevIL/src-IL/src/il_targa.cpp b/DevIL/src-IL/src/il_targa.cpp
index 37ec030..f394482 100644
--- a/DevIL/src-IL/src/il_targa.cpp
+++ b/DevIL/src-IL/src/il_targa.cpp
@@ -269,6 +269,7 @@ ILboolean iReadColMapTga(TARGAHEAD *Header)
 
 	switch (Header->ColMapEntSize)
 	{
+		case 15:
 		case 16:
 			PalType = IL_PAL_BGRA32;
 			PalSize = Header->ColMapLen * 4;
@@ -300,7 +301,7 @@ ILboolean iReadColMapTga(TARGAHEAD *Header)
 	
 	// Do we need to do something with FirstEntry?	Like maybe:
 	//	iread(Image->Pal + Targa->FirstEntry, 1, Image->Pal.PalSize);  ??
-	if (Header->ColMapEntSize != 16)
+	if (Header->ColMapEntSize > 16)
 	{
 		if (iread(iCurImage->Pal.Palette, 1, iCurImage->Pal.PalSize) != iCurImage->Pal.PalSize)
 			return IL_FALSE;
@@ -312,7 +313,7 @@ ILboolean iReadColMapTga(TARGAHEAD *Header)
 			if (iread(&Pixel, sizeof(Pixel), 1) != 1)
 				return IL_FALSE;
 			UShort(&Pixel);
-			iCurImage->Pal.Palette[i + 3] = (Pixel & 0x8000) ? 0xFF : 0;
+			iCurImage->Pal.Palette[i + 3] = (Header->ColMapEntSize == 15 || (Pixel & 0x8000)) ? 0xFF : 0;
 			iCurImage->Pal.Palette[i + 2] = (Pixel & 0x7C00) >> 7;
 			iCurImage->Pal.Palette[i + 1] = (Pixel & 0x03E0) >> 2;
 			iCurImage->Pal.Palette[i] = (Pixel & 0x001F) << 3;
-- 
2.43.0


From b9450b2dbcf08e4de6a7bcfee79033f006d6d277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:33 +0000
Subject: [PATCH 027/115] fix: DDS pixels read and written within their buffers

---
 DevIL/src-IL/src/il_dds.cpp | 129 +++++++++++++-----------------------
 1 file changed, 46 insertions(+), 83 deletions(-)

diff --git a/DevIL/src-IL/src/il_dds.cpp b/DevIL/src-IL/src/il_dds.cpp
index a1df617..b0e0aa0 100644
--- a/DevIL/src-IL/src/il_dds.cpp
+++ b/DevIL/src-IL/src/il_dds.cpp
@@ -1929,7 +1929,7 @@ ILboolean DecompressARGBDX10(ILuint CompFormat)
 
 ILboolean DecompressARGB(ILuint CompFormat)
 {
-	ILuint ReadI = 0, TempBpp, i;
+	ILuint ReadI = 0, TempBpp, i, j;
 	ILuint RedL, RedR;
 	ILuint GreenL, GreenR;
 	ILuint BlueL, BlueR;
@@ -1956,24 +1956,10 @@ ILboolean DecompressARGB(ILuint CompFormat)
 
 	for (i = 0; i < Image->SizeOfData; i += Image->Bpp) {
 
-		//@TODO: This is SLOOOW...
-		//but the old version crashed in release build under
-		//winxp (and xp is right to stop this code - I always
-		//wondered that it worked the old way at all)
-		if (Image->SizeOfData - i < 4) { //less than 4 byte to write?
-			if (TempBpp == 3) { //this branch is extra-SLOOOW
-				ReadI =
-					*Temp
-					| ((*(Temp + 1)) << 8)
-					| ((*(Temp + 2)) << 16);
-			}
-			else if (TempBpp == 1)
-				ReadI = *((ILubyte*)Temp);
-			else if (TempBpp == 2)
-				ReadI = Temp[0] | (Temp[1] << 8);
-		}
-		else
-			ReadI = Temp[0] | (Temp[1] << 8) | (Temp[2] << 16) | (Temp[3] << 24);
+		// The pixel has TempBpp bytes, never read past it.
+		ReadI = 0;
+		for (j = 0; j < TempBpp && j < 4; j++)
+			ReadI |= (ILuint)Temp[j] << (8 * j);
 		Temp += TempBpp;
 
 		Image->Data[i] = ((ReadI & Head.RBitMask) >> RedR) << RedL;
@@ -1998,7 +1984,7 @@ ILboolean DecompressARGB(ILuint CompFormat)
 				Image->Data[i+1] = Image->Data[i+1] ? 0xFF : 0x00;
 			}
 			else if (AlphaL >= 4) {
-				Image->Data[i+1] = Image->Data[i+1] | (Image->Data[i+3] >> 4);
+				Image->Data[i+1] = Image->Data[i+1] | (Image->Data[i+1] >> 4);
 			}
 		}
 	}
@@ -2029,82 +2015,59 @@ ILuint CountBitsFromMask(ILuint Mask)
 
 // Same as DecompressARGB, but it works on images with more than 8 bits
 //  per channel, such as a2r10g10b10 and a2b10g10r10.
+// Gets the component of a pixel given by Mask as a 16-bit value.
+static ILushort GetComponent16(ILuint Pixel, ILuint Mask)
+{
+	ILuint Left, Right, Bits;
+
+	if (Mask == 0)
+		return 0;
+	GetBitsFromMask(Mask, &Left, &Right);
+	Bits = CountBitsFromMask(Mask);
+	Pixel = (Pixel & Mask) >> Right;
+	if (Bits == 1)
+		return Pixel ? 0xFFFF : 0;
+	if (Bits <= 4)  // Keeps full opacity
+		return (ILushort)(Pixel * 0xFFFF / ((1u << Bits) - 1));
+	if (Bits <= 16)
+		return (ILushort)(Pixel << (16 - Bits));
+	return (ILushort)(Pixel >> (Bits - 16));
+}
+
+
 ILboolean DecompressARGB16(ILuint CompFormat)
 {
-	ILuint ReadI = 0, TempBpp, i;
-	ILuint RedL, RedR;
-	ILuint GreenL, GreenR;
-	ILuint BlueL, BlueR;
-	ILuint AlphaL, AlphaR;
-	ILuint RedPad, GreenPad, BluePad, AlphaPad;
-	ILubyte	*Temp;
+	ILuint		ReadI, TempBpp, i, j, NumComps;
+	ILubyte		*Temp;
+	ILushort	*Out;
 
 	if (!CompData)
 		return IL_FALSE;
 
-	GetBitsFromMask(Head.RBitMask, &RedL, &RedR);
-	GetBitsFromMask(Head.GBitMask, &GreenL, &GreenR);
-	GetBitsFromMask(Head.BBitMask, &BlueL, &BlueR);
-	GetBitsFromMask(Head.RGBAlphaBitMask, &AlphaL, &AlphaR);
-	RedPad   = 16 - CountBitsFromMask(Head.RBitMask);
-	GreenPad = 16 - CountBitsFromMask(Head.GBitMask);
-	BluePad  = 16 - CountBitsFromMask(Head.BBitMask);
-	AlphaPad = 16 - CountBitsFromMask(Head.RGBAlphaBitMask);
-
-	RedL = RedL + RedPad;
-	GreenL = GreenL + GreenPad;
-	BlueL = BlueL + BluePad;
-	AlphaL = AlphaL + AlphaPad;
-
 	Temp = CompData;
 	TempBpp = Head.RGBBitCount / 8;
+	Out = (ILushort*)Image->Data;
+	NumComps = Image->SizeOfData / 2;
 
-	for (i = 0; i < Image->SizeOfData / 2; i += Image->Bpp) {
-
-		//@TODO: This is SLOOOW...
-		//but the old version crashed in release build under
-		//winxp (and xp is right to stop this code - I always
-		//wondered that it worked the old way at all)
-		if (Image->SizeOfData - i < 4) { //less than 4 byte to write?
-			if (TempBpp == 3) { //this branch is extra-SLOOOW
-				ReadI =
-					*Temp
-					| ((*(Temp + 1)) << 8)
-					| ((*(Temp + 2)) << 16);
-			}
-			else if (TempBpp == 1)
-				ReadI = *((ILubyte*)Temp);
-			else if (TempBpp == 2)
-				ReadI = Temp[0] | (Temp[1] << 8);
-		}
-		else
-			ReadI = Temp[0] | (Temp[1] << 8) | (Temp[2] << 16) | (Temp[3] << 24);
-		Temp += TempBpp;
+	for (i = 0; i + Image->Bpp <= NumComps; i += Image->Bpp) {
 
-		((ILushort*)Image->Data)[i+2] = ((ReadI & Head.RBitMask) >> RedR) << RedL;
+		// The pixel has TempBpp bytes, never read past it.
+		ReadI = 0;
+		for (j = 0; j < TempBpp && j < 4; j++)
+			ReadI |= (ILuint)Temp[j] << (8 * j);
+		Temp += TempBpp;
 
 		if (Image->Bpp >= 3) {
-			((ILushort*)Image->Data)[i+1] = ((ReadI & Head.GBitMask) >> GreenR) << GreenL;
-			((ILushort*)Image->Data)[i] = ((ReadI & Head.BBitMask) >> BlueR) << BlueL;
-
-			if (Image->Bpp == 4) {
-				((ILushort*)Image->Data)[i+3] = ((ReadI & Head.RGBAlphaBitMask) >> AlphaR) << AlphaL;
-				if (AlphaL >= 7) {
-					((ILushort*)Image->Data)[i+3] = ((ILushort*)Image->Data)[i+3] ? 0xFF : 0x00;
-				}
-				else if (AlphaL >= 4) {
-					((ILushort*)Image->Data)[i+3] = ((ILushort*)Image->Data)[i+3] | (((ILushort*)Image->Data)[i+3] >> 4);
-				}
-			}
+			Out[i+2] = GetComponent16(ReadI, Head.RBitMask);
+			Out[i+1] = GetComponent16(ReadI, Head.GBitMask);
+			Out[i] = GetComponent16(ReadI, Head.BBitMask);
+			if (Image->Bpp == 4)
+				Out[i+3] = GetComponent16(ReadI, Head.RGBAlphaBitMask);
 		}
-		else if (Image->Bpp == 2) {
-			((ILushort*)Image->Data)[i+1] = ((ReadI & Head.RGBAlphaBitMask) >> AlphaR) << AlphaL;
-			if (AlphaL >= 7) {
-				((ILushort*)Image->Data)[i+1] = ((ILushort*)Image->Data)[i+1] ? 0xFF : 0x00;
-			}
-			else if (AlphaL >= 4) {
-				((ILushort*)Image->Data)[i+1] = ((ILushort*)Image->Data)[i+1] | (Image->Data[i+3] >> 4);
-			}
+		else {
+			Out[i] = GetComponent16(ReadI, Head.RBitMask);
+			if (Image->Bpp == 2)
+				Out[i+1] = GetComponent16(ReadI, Head.RGBAlphaBitMask);
 		}
 	}
 
-- 
2.43.0


From aeb357a6c0a3fe4ac99c5ae8834337c9dccf9a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:33 +0000
Subject: [PATCH 028/115] fix: tiled and planar TIFF files keep their samples

---
 DevIL/src-IL/src/il_tiff.cpp | 115 +++++++++++++++++++++++++++--------
 1 file changed, 89 insertions(+), 26 deletions(-)

diff --git a/DevIL/src-IL/src/il_tiff.cpp b/DevIL/src-IL/src/il_tiff.cpp
index e8ce758..7e66e93 100644
--- a/DevIL/src-IL/src/il_tiff.cpp
+++ b/DevIL/src-IL/src/il_tiff.cpp
@@ -305,6 +305,64 @@ static ILimage *iNewTiffPage(ILimage *Last, ILuint Width, ILuint Height, ILubyte
 }
 
 
+// Reads the samples of a directory with 8 or 16 bits per sample, whether they are stored
+//  pixel by pixel or plane by plane, in strips or in tiles.
+static ILboolean iReadTiffSamples(TIFF *tif, ILimage *Image, ILboolean Planar)
+{
+	ILboolean	Tiled = TIFFIsTiled(tif) != 0;
+	ILuint		BlockW = Image->Width, BlockH = 1, Planes = Planar ? Image->Bpp : 1;
+	ILuint		Step = Image->Bpp * Image->Bpc, Size = Planar ? Image->Bpc : Step;  // Of a pixel
+	ILuint		Plane, x, y, i, j, Cols;
+	ILubyte		*Block, *Src, *Dat;
+	tsize_t		BlockSize, RowSize;
+
+	if (Tiled) {
+		uint32 TileW = 0, TileH = 0;
+		TIFFGetField(tif, TIFFTAG_TILEWIDTH, &TileW);
+		TIFFGetField(tif, TIFFTAG_TILELENGTH, &TileH);
+		BlockW = TileW;
+		BlockH = TileH;
+		BlockSize = TIFFTileSize(tif);
+		RowSize = TIFFTileRowSize(tif);
+	}
+	else {
+		BlockSize = RowSize = TIFFScanlineSize(tif);
+	}
+	if (BlockW == 0 || BlockH == 0 || RowSize <= 0 || (tsize_t)BlockW * Size > RowSize
+		|| BlockSize / RowSize < (tsize_t)BlockH || BlockSize > 0x7FFFFFFF) {
+		ilSetError(IL_INVALID_FILE_HEADER);
+		return IL_FALSE;
+	}
+
+	Block = (ILubyte*)ialloc(BlockSize);
+	if (Block == NULL)
+		return IL_FALSE;
+	memset(Block, 0, BlockSize);
+
+	for (Plane = 0; Plane < Planes; Plane++) {
+		for (y = 0; y < Image->Height; y += BlockH) {
+			for (x = 0; x < Image->Width; x += BlockW) {
+				if ((Tiled ? TIFFReadTile(tif, Block, x, y, 0, Plane) : TIFFReadScanline(tif, Block, y, Plane)) < 0) {
+					ilSetError(IL_LIB_TIFF_ERROR);
+					ifree(Block);
+					return IL_FALSE;
+				}
+				Cols = IL_MIN(BlockW, Image->Width - x);
+				for (i = 0; i < BlockH && i < Image->Height - y; i++) {
+					Src = Block + i * RowSize;
+					Dat = Image->Data + (size_t)(y + i) * Image->Bps + x * Step + Plane * Image->Bpc;
+					for (j = 0; j < Cols; j++)
+						memcpy(Dat + j * Step, Src + j * Size, Size);
+				}
+			}
+		}
+	}
+
+	ifree(Block);
+	return IL_TRUE;
+}
+
+
 // Internal function used to load the Tiff.
 ILboolean iLoadTiffInternal()
 {
@@ -378,9 +436,8 @@ ILboolean iLoadTiffInternal()
 		Format = 0;
 		if (sampleformat == SAMPLEFORMAT_UINT
 			&& (bitspersample == 8 || bitspersample == 16 || (bitspersample == 1 && samplesperpixel == 1))
-			&& (planarconfig == PLANARCONFIG_CONTIG || samplesperpixel == 1)
 			&& (orientation == ORIENTATION_TOPLEFT || orientation == ORIENTATION_BOTLEFT)
-			&& !TIFFIsTiled(tif)) {
+			&& (bitspersample != 1 || !TIFFIsTiled(tif))) {
 			if (photometric == PHOTOMETRIC_MINISBLACK || photometric == PHOTOMETRIC_MINISWHITE) {
 				if (samplesperpixel == 1)
 					Format = IL_LUMINANCE;
@@ -434,27 +491,27 @@ ILboolean iLoadTiffInternal()
 				}
 			}
 
-			if (linesize < (tsize_t)(bitspersample == 1 ? (w + 7) / 8 : Image->Bps)) {
-				ilSetError(IL_INVALID_FILE_HEADER);
-				TIFFClose(tif);
-				return IL_FALSE;
-			}
-			Line = (ILubyte*)ialloc(linesize);
-			if (Line == NULL) {
-				TIFFClose(tif);
-				return IL_FALSE;
-			}
-
-			for (y = 0; y < h; y++) {
-				if (TIFFReadScanline(tif, Line, y, 0) < 0) {
-					ilSetError(IL_LIB_TIFF_ERROR);
-					ifree(Line);
+			if (bitspersample == 1) {
+				if (linesize < (tsize_t)((w + 7) / 8)) {
+					ilSetError(IL_INVALID_FILE_HEADER);
+					TIFFClose(tif);
+					return IL_FALSE;
+				}
+				Line = (ILubyte*)ialloc(linesize);
+				if (Line == NULL) {
 					TIFFClose(tif);
 					return IL_FALSE;
 				}
 
-				Dat = Image->Data + (size_t)y * Image->Bps;
-				if (bitspersample == 1) {
+				for (y = 0; y < h; y++) {
+					if (TIFFReadScanline(tif, Line, y, 0) < 0) {
+						ilSetError(IL_LIB_TIFF_ERROR);
+						ifree(Line);
+						TIFFClose(tif);
+						return IL_FALSE;
+					}
+
+					Dat = Image->Data + (size_t)y * Image->Bps;
 					for (x = 0; x < w; x++) {
 						Bit = (Line[x >> 3] >> (7 - (x & 7))) & 1;
 						if (Format == IL_COLOUR_INDEX)
@@ -463,11 +520,19 @@ ILboolean iLoadTiffInternal()
 							Dat[x] = (Bit != 0) != (photometric == PHOTOMETRIC_MINISWHITE) ? 255 : 0;
 					}
 				}
-				else {
-					memcpy(Dat, Line, Image->Bps);
-					if (photometric == PHOTOMETRIC_MINISWHITE) { //invert channel
-						//this works for 16bit images as well: the two bytes
-						//making up a sample can be inverted independently
+
+				ifree(Line);
+			}
+			else {
+				if (!iReadTiffSamples(tif, Image, planarconfig == PLANARCONFIG_SEPARATE && samplesperpixel > 1)) {
+					TIFFClose(tif);
+					return IL_FALSE;
+				}
+				if (photometric == PHOTOMETRIC_MINISWHITE) { //invert channel
+					//this works for 16bit images as well: the two bytes
+					//making up a sample can be inverted independently
+					for (y = 0; y < h; y++) {
+						Dat = Image->Data + (size_t)y * Image->Bps;
 						for (x = 0; x < Image->Bps; x++) {
 							if (x % (samplesperpixel * Image->Bpc) < Image->Bpc)
 								Dat[x] = ~Dat[x];
@@ -475,8 +540,6 @@ ILboolean iLoadTiffInternal()
 					}
 				}
 			}
-
-			ifree(Line);
 		}
 		else {
 			//not direclty supported format
-- 
2.43.0


From 1a4e74a5aad5dfb8ed4526bc47600faf4d46131b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:13 +0000
Subject: [PATCH 029/115] fix: CUT and PIX runs stay within the image, unsigned
 CUT sizes

---
 DevIL/src-IL/src/il_cut.cpp | 29 +++++++++++++++++++----------
 DevIL/src-IL/src/il_pix.cpp |  7 ++++---
 2 files changed, 23 insertions(+), 13 deletions(-)

diff --git a/DevIL/src-IL/src/il_cut.cpp b/DevIL/src-IL/src/il_cut.cpp
index b5e9e91..fed42a5 100644
--- a/DevIL/src-IL/src/il_cut.cpp
+++ b/DevIL/src-IL/src/il_cut.cpp
@@ -82,15 +82,16 @@ ILboolean iLoadCutInternal()
 {
 	CUT_HEAD	Header;
 	ILuint		Size, i = 0, j;
-	ILubyte		Count, Run;
+	ILubyte		Count;
+	ILint		c;
 
 	if (iCurImage == NULL) {
 		ilSetError(IL_ILLEGAL_OPERATION);
 		return IL_FALSE;
 	}
 
-	Header.Width = GetLittleShort();
-	Header.Height = GetLittleShort();
+	Header.Width = GetLittleUShort();
+	Header.Height = GetLittleUShort();
 	Header.Dummy = GetLittleInt();
 
 	if (Header.Width == 0 || Header.Height == 0) {
@@ -103,10 +104,13 @@ ILboolean iLoadCutInternal()
 	}
 	iCurImage->Origin = IL_ORIGIN_LOWER_LEFT;
 
-	Size = Header.Width * Header.Height;
+	Size = iCurImage->SizeOfData;
 
 	while (i < Size) {
-		Count = igetc();
+		c = igetc();
+		if (c == IL_EOF)
+			return IL_FALSE;
+		Count = (ILubyte)c;
 		if (Count == 0) { // end of row
 			igetc();  // Not supposed to be here, but
 			igetc();  //  PSP is putting these two bytes here...WHY?!
@@ -114,14 +118,19 @@ ILboolean iLoadCutInternal()
 		}
 		if (Count & BIT_7) {  // rle-compressed
 			ClearBits(Count, BIT_7);
-			Run = igetc();
-			for (j = 0; j < Count; j++) {
-				iCurImage->Data[i++] = Run;
+			c = igetc();
+			if (c == IL_EOF)
+				return IL_FALSE;
+			for (j = 0; j < Count && i < Size; j++) {
+				iCurImage->Data[i++] = (ILubyte)c;
 			}
 		}
 		else {  // run of pixels
-			for (j = 0; j < Count; j++) {
-				iCurImage->Data[i++] = igetc();
+			for (j = 0; j < Count && i < Size; j++) {
+				c = igetc();
+				if (c == IL_EOF)
+					return IL_FALSE;
+				iCurImage->Data[i++] = (ILubyte)c;
 			}
 		}
 	}
diff --git a/DevIL/src-IL/src/il_pix.cpp b/DevIL/src-IL/src/il_pix.cpp
index e43e60f..ce75700 100644
--- a/DevIL/src-IL/src/il_pix.cpp
+++ b/DevIL/src-IL/src/il_pix.cpp
@@ -122,7 +122,8 @@ ILboolean iLoadPixInternal()
 {
 	PIXHEAD	Header;
 	ILuint	i, j;
-	ILubyte	ByteHead, Colour[3];
+	ILubyte	Colour[3];
+	ILint	ByteHead;
 
 	if (iCurImage == NULL) {
 		ilSetError(IL_ILLEGAL_OPERATION);
@@ -141,9 +142,9 @@ ILboolean iLoadPixInternal()
 
 	for (i = 0; i < iCurImage->SizeOfData; ) {
 		ByteHead = igetc();
-		if (iread(Colour, 1, 3) != 3)
+		if (ByteHead == IL_EOF || iread(Colour, 1, 3) != 3)
 			return IL_FALSE;
-		for (j = 0; j < ByteHead; j++) {
+		for (j = 0; j < (ILuint)ByteHead && i + 3 <= iCurImage->SizeOfData; j++) {
 			iCurImage->Data[i++] = Colour[0];
 			iCurImage->Data[i++] = Colour[1];
 			iCurImage->Data[i++] = Colour[2];
-- 
2.43.0


From 9ebb81d65b67cc1931e9411fb4bcba0511df4f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:13 +0000
Subject: [PATCH 030/115] fix: WAL mipmaps are owned by the image while loading

---
 DevIL/src-IL/src/il_wal.cpp | 81 +++++++++++++++++--------------------
 1 file changed, 36 insertions(+), 45 deletions(-)

diff --git a/DevIL/src-IL/src/il_wal.cpp b/DevIL/src-IL/src/il_wal.cpp
index 1a70b0c..17a2ae8 100644
--- a/DevIL/src-IL/src/il_wal.cpp
+++ b/DevIL/src-IL/src/il_wal.cpp
@@ -73,6 +73,22 @@ ILboolean ilLoadWalL(const void *Lump, ILuint Size)
 }
 
 
+// Gives the image the palette of Quake 2.
+static ILboolean iSetWalPal(ILimage *Image)
+{
+	ifree(Image->Pal.Palette);
+	Image->Pal.PalSize = 0;
+	Image->Pal.PalType = IL_PAL_NONE;
+	Image->Pal.Palette = (ILubyte*)ialloc(768);
+	if (Image->Pal.Palette == NULL)
+		return IL_FALSE;
+	memcpy(Image->Pal.Palette, ilDefaultQ2Pal, 768);
+	Image->Pal.PalSize = 768;
+	Image->Pal.PalType = IL_PAL_RGB24;
+	return IL_TRUE;
+}
+
+
 ILboolean iLoadWalInternal()
 {
 	WALHEAD	Header;
@@ -102,66 +118,41 @@ ILboolean iLoadWalInternal()
 	if (!ilTexImage(Header.Width, Header.Height, 1, 1, IL_COLOUR_INDEX, IL_UNSIGNED_BYTE, NULL))
 		return IL_FALSE;
 
-	for (i = 0; i < 3; i++) {
-		Mipmaps[i] = (ILimage*)icalloc(sizeof(ILimage), 1);
+	// Each mipmap belongs to the one before, so whoever closes the image closes them.
+	for (i = 0, NewW = Header.Width, NewH = Header.Height; i < 3; i++) {
+		NewW = IL_MAX(NewW / 2, 1);
+		NewH = IL_MAX(NewH / 2, 1);
+		Mipmaps[i] = ilNewImageFull(NewW, NewH, 1, 1, IL_COLOUR_INDEX, IL_UNSIGNED_BYTE, NULL);
 		if (Mipmaps[i] == NULL)
-			goto cleanup_error;
-		Mipmaps[i]->Pal.Palette = (ILubyte*)ialloc(768);
-		if (Mipmaps[i]->Pal.Palette == NULL)
-			goto cleanup_error;
-		memcpy(Mipmaps[i]->Pal.Palette, ilDefaultQ2Pal, 768);
-		Mipmaps[i]->Pal.PalType = IL_PAL_RGB24;
-	}
-
-	NewW = Header.Width;
-	NewH = Header.Height;
-	for (i = 0; i < 3; i++) {
-		NewW /= 2;
-		NewH /= 2;
-		iCurImage = Mipmaps[i];
-		if (!ilTexImage(NewW, NewH, 1, 1, IL_COLOUR_INDEX, IL_UNSIGNED_BYTE, NULL))
-			goto cleanup_error;
-		// Don't set until now so ilTexImage won't get rid of the palette.
-		Mipmaps[i]->Pal.PalSize = 768;
+			return IL_FALSE;
+		if (i == 0) {
+			ilCloseImage(CurImage->Mipmaps);
+			CurImage->Mipmaps = Mipmaps[0];
+		}
+		else
+			Mipmaps[i-1]->Mipmaps = Mipmaps[i];
 		Mipmaps[i]->Origin = IL_ORIGIN_UPPER_LEFT;
+		if (!iSetWalPal(Mipmaps[i]))
+			return IL_FALSE;
 	}
 
-	iCurImage = CurImage;
-	ilCloseImage(iCurImage->Mipmaps);
-	iCurImage->Mipmaps = Mipmaps[0];
-	Mipmaps[0]->Mipmaps = Mipmaps[1];
-	Mipmaps[1]->Mipmaps = Mipmaps[2];
-
 	iCurImage->Origin = IL_ORIGIN_UPPER_LEFT;
 
-	if (iCurImage->Pal.Palette && iCurImage->Pal.PalSize && iCurImage->Pal.PalType != IL_PAL_NONE)
-		ifree(iCurImage->Pal.Palette);
-	iCurImage->Pal.Palette = (ILubyte*)ialloc(768);
-	if (iCurImage->Pal.Palette == NULL)
-		goto cleanup_error;
-
-	iCurImage->Pal.PalSize = 768;
-	iCurImage->Pal.PalType = IL_PAL_RGB24;
-	memcpy(iCurImage->Pal.Palette, ilDefaultQ2Pal, 768);
+	if (!iSetWalPal(iCurImage))
+		return IL_FALSE;
 
 	iseek(Header.Offsets[0], IL_SEEK_SET);
-	if (iread(iCurImage->Data, Header.Width * Header.Height, 1) != 1)
-		goto cleanup_error;
+	if (iread(iCurImage->Data, iCurImage->SizeOfData, 1) != 1)
+		return IL_FALSE;
 
 	for (i = 0; i < 3; i++) {
 		iseek(Header.Offsets[i+1], IL_SEEK_SET);
-		if (iread(Mipmaps[i]->Data, Mipmaps[i]->Width * Mipmaps[i]->Height, 1) != 1)
-			goto cleanup_error;
+		if (iread(Mipmaps[i]->Data, Mipmaps[i]->SizeOfData, 1) != 1)
+			return IL_FALSE;
 	}
 
 	// Fixes all images, even mipmaps.
 	return ilFixImage();
-
-cleanup_error:
-	for (i = 0; i < 3; i++) {
-		ilCloseImage(Mipmaps[i]);
-	}
-	return IL_FALSE;
 }
 
 
-- 
2.43.0


From ddae3cc94f7d5b5872a3f69c17211ee8a78c0472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:13 +0000
Subject: [PATCH 031/115] fix: TPL tiles of all formats

---
 DevIL/src-IL/src/il_tpl.cpp | 647 +++++++++++-------------------------
 1 file changed, 199 insertions(+), 448 deletions(-)

diff --git a/DevIL/src-IL/src/il_tpl.cpp b/DevIL/src-IL/src/il_tpl.cpp
index bc254fa..9603134 100755
--- a/DevIL/src-IL/src/il_tpl.cpp
+++ b/DevIL/src-IL/src/il_tpl.cpp
@@ -52,7 +52,8 @@ typedef struct TPLHEAD
 ILboolean iIsValidTpl(void);
 ILboolean iCheckTpl(TPLHEAD *Header);
 ILboolean iLoadTplInternal(void);
-ILboolean TplGetIndexImage(ILimage *Image, ILuint TexOff, ILuint DataFormat);
+static ILboolean TplGetIndexImage(ILimage *Image, ILuint TexOff, ILuint PalOff, ILuint DataFormat);
+static ILboolean TplGetTiles(ILimage *Image, ILuint DataFormat, const ILubyte *Pal);
 
 
 //! Checks if the file specified in FileName is a valid TPL file.
@@ -189,14 +190,9 @@ ILboolean iLoadTplInternal(void)
 {
 	TPLHEAD		Header;
 	ILimage		*Image/*, *BaseImage*/;
-	ILuint		Pos, TexOff, PalOff, DataFormat, Bpp, DataOff, WrapS, WrapT;
-	ILuint		x, y, xBlock, yBlock, i, j, k, n;
+	ILuint		Pos, TexOff, PalOff, DataFormat, Bpp, WrapS, WrapT, n;
 	ILenum		Format;
-	ILushort	Width, Height, ShortPixel;
-	ILubyte		BytePixel, CompData[8];
-	Color8888	colours[4], *col;
-	ILushort	color_0, color_1;
-	ILuint		bitmask, Select;
+	ILushort	Width, Height;
 
 	if (iCurImage == NULL) {
 		ilSetError(IL_ILLEGAL_OPERATION);
@@ -228,7 +224,7 @@ ILboolean iLoadTplInternal(void)
 		// It looks like files actually have n-1 images, with the nth one having 0 height and width.
 		if (Width == 0 || Height == 0) {
 			// If this is our first image, however, we error out.
-			if (Image == iCurImage) {
+			if (n == 0) {
 				ilSetError(IL_ILLEGAL_FILE_VALUE);
 				return IL_FALSE;
 			}
@@ -262,7 +258,7 @@ ILboolean iLoadTplInternal(void)
 			case TPL_IA4:
 			case TPL_IA8:
 				Format = IL_LUMINANCE_ALPHA;
-				Bpp = 1;
+				Bpp = 2;
 				break;
 			case TPL_RGB565:
 				Format = IL_RGB;
@@ -283,7 +279,7 @@ ILboolean iLoadTplInternal(void)
 				break;
 			case TPL_CI14X2:
 				Format = IL_RGBA;
-				Bpp = 3;
+				Bpp = 4;
 				break;
 			case TPL_CMP:
 				Format = IL_RGBA;
@@ -295,7 +291,7 @@ ILboolean iLoadTplInternal(void)
 				return IL_FALSE;
 		}
 
-		if (Image == iCurImage) {  // This is our first image.
+		if (n == 0) {  // This is our first image.
 			if (!ilTexImage(Width, Height, 1, Bpp, Format, IL_UNSIGNED_BYTE, NULL))
 				return IL_FALSE;
 		}
@@ -309,282 +305,15 @@ ILboolean iLoadTplInternal(void)
 
 		switch (DataFormat)
 		{
-			case TPL_I4:
-				// 8x8 tiles of 4-bit intensity values
-				for (y = 0; y < Image->Height; y += 8) {
-					for (x = 0; x < Image->Width; x += 8) {
-						for (yBlock = 0; yBlock < 8; yBlock++) {
-							if ((y + yBlock) >= Image->Height) {
-								iseek(8, IL_SEEK_CUR);  // Entire row of pad bytes skipped.
-								continue;
-							}
-							DataOff = Image->Bps * (y + yBlock) + Image->Bpp * x;
-							for (xBlock = 0; xBlock < 8; xBlock += 2) {
-								BytePixel = igetc();
-								if ((x + xBlock) >= Image->Width)
-									continue;  // Already read the pad byte.
-								Image->Data[DataOff] = (BytePixel & 0xF0) | (BytePixel & 0xF0) >> 4;
-								DataOff++;
-								// We have to do this check again, so we do not go past the last pixel in the image (ex. 1 pixel wide image).
-								if ((x + xBlock) >= Image->Width)
-									continue;  // Already read the pad byte.
-								Image->Data[DataOff+1] = (BytePixel & 0x0F) << 4 | (BytePixel & 0x0F);
-								DataOff++;
-							}
-						}
-					}
-				}
-				break;
-
-			case TPL_I8:
-				// 8x4 tiles of 8-bit intensity values
-				for (y = 0; y < Image->Height; y += 4) {
-					for (x = 0; x < Image->Width; x += 8) {
-						for (yBlock = 0; yBlock < 4; yBlock++) {
-							if ((y + yBlock) >= Image->Height) {
-								iseek(8, IL_SEEK_CUR);  // Entire row of pad bytes skipped.
-								continue;
-							}
-							DataOff = Image->Bps * (y + yBlock) + Image->Bpp * x;
-							for (xBlock = 0; xBlock < 8; xBlock++) {
-								if ((x + xBlock) >= Image->Width) {
-									igetc();  // Skip the pad byte.
-									continue;
-								}
-								Image->Data[DataOff] = igetc();  // Luminance value
-								DataOff++;
-							}
-						}
-					}
-				}
-				break;
-
-			case TPL_IA4:
-				// 8x4 tiles of 4-bit intensity and 4-bit alpha values
-				for (y = 0; y < Image->Height; y += 4) {
-					for (x = 0; x < Image->Width; x += 8) {
-						for (yBlock = 0; yBlock < 4; yBlock++) {
-							if ((y + yBlock) >= Image->Height) {
-								iseek(8, IL_SEEK_CUR);  // Entire row of pad bytes skipped.
-								continue;
-							}
-							DataOff = Image->Bps * (y + yBlock) + Image->Bpp * x;
-							for (xBlock = 0; xBlock < 8; xBlock += 2) {
-								BytePixel = igetc();
-								if ((x + xBlock) >= Image->Width)
-									continue;  // Already read the pad byte.
-								Image->Data[DataOff] = (BytePixel & 0xF0) | (BytePixel & 0xF0) >> 4;
-								Image->Data[DataOff+1] = (BytePixel & 0x0F) << 4 | (BytePixel & 0x0F);
-								DataOff += 2;
-							}
-						}
-					}
-				}
-				break;
-
-			case TPL_IA8:
-				// 4x4 tiles of 8-bit intensity and 8-bit alpha values
-				for (y = 0; y < Image->Height; y += 4) {
-					for (x = 0; x < Image->Width; x += 4) {
-						for (yBlock = 0; yBlock < 4; yBlock++) {
-							if ((y + yBlock) >= Image->Height) {
-								iseek(8, IL_SEEK_CUR);  // Entire row of pad bytes skipped.
-								continue;
-							}
-							DataOff = Image->Bps * (y + yBlock) + Image->Bpp * x;
-							for (xBlock = 0; xBlock < 4; xBlock += 2) {
-								if ((x + xBlock) >= Image->Width) {
-									iseek(2, IL_SEEK_CUR);  // Skip the pad bytes.
-									continue;
-								}
-								Image->Data[DataOff] = igetc();
-								Image->Data[DataOff+1] = igetc();
-								DataOff += 2;
-							}
-						}
-					}
-				}
-				break;
-
-			case TPL_RGB565:
-				// 4x4 tiles of RGB565 data
-				for (y = 0; y < Image->Height; y += 4) {
-					for (x = 0; x < Image->Width; x += 4) {
-						for (yBlock = 0; yBlock < 4; yBlock++) {
-							if ((y + yBlock) >= Image->Height) {
-								iseek(8, IL_SEEK_CUR);  // Entire row of pad bytes skipped.
-								continue;
-							}
-							DataOff = Image->Bps * (y + yBlock) + Image->Bpp * x;
-							for (xBlock = 0; xBlock < 4; xBlock++) {
-								ShortPixel = GetBigUShort();
-								if ((x + xBlock) >= Image->Width)
-									continue;  // Already read the pad byte.
-								Image->Data[DataOff] = ((ShortPixel & 0xF800) >> 8) | ((ShortPixel & 0xE000) >> 13); // Red
-								Image->Data[DataOff+1] = ((ShortPixel & 0x7E0) >> 3) | ((ShortPixel & 0x600) >> 9); // Green
-								Image->Data[DataOff+2] = ((ShortPixel & 0x1f) << 3) | ((ShortPixel & 0x1C) >> 2); // Blue
-								DataOff += 3;
-							}
-						}
-					}
-				}
-				break;
-
-			case TPL_RGB5A3:
-				// 4x4 tiles of either RGB5 or RGB4A3 depending on the MSB. 0x80
-				for (y = 0; y < Image->Height; y += 4) {
-					for (x = 0; x < Image->Width; x += 4) {
-						for (yBlock = 0; yBlock < 4; yBlock++) {
-							if ((y + yBlock) >= Image->Height) {
-								iseek(8, IL_SEEK_CUR);  // Entire row of pad bytes skipped.
-								continue;
-							}
-							DataOff = Image->Bps * (y + yBlock) + Image->Bpp * x;
-							for (xBlock = 0; xBlock < 4; xBlock++) {
-								ShortPixel = GetBigUShort();
-								if ((x + xBlock) >= Image->Width)
-									continue;  // Already read the pad byte.
-
-								if (ShortPixel & 0x8000) {  // Check MSB.
-									// We have RGB5.
-									Image->Data[DataOff] = ((ShortPixel & 0x7C00) >> 7) | ((ShortPixel & 0x7000) >> 12); // Red
-									Image->Data[DataOff+1] = ((ShortPixel & 0x3E0) >> 2) | ((ShortPixel & 0x380) >> 7); // Green
-									Image->Data[DataOff+2] = ((ShortPixel & 0x1F) << 3) | ((ShortPixel & 0x1C) >> 2); // Blue
-									Image->Data[DataOff+3] = 0xFF;  // I am just assuming that it is opaque.
-								}
-								else {
-									// We have RGB4A3.
-									Image->Data[DataOff] = ((ShortPixel & 0x7800) >> 7) | ((ShortPixel & 0x7800) >> 11); // Red
-									Image->Data[DataOff+1] = ((ShortPixel & 0x0780) >> 3) | ((ShortPixel & 0x0780) >> 7); // Green
-									Image->Data[DataOff+2] = ((ShortPixel & 0x0078) << 1) | ((ShortPixel & 0x0078) >> 3); // Blue
-									Image->Data[DataOff+3] = ((ShortPixel & 0x07) << 5) | ((ShortPixel & 0x07) << 2) | (ShortPixel >> 1); // Alpha
-								}
-								DataOff += 3;
-							}
-						}
-					}
-				}
-				break;
-
-			case TPL_RGBA8:
-				// 4x4 tiles of RGBA data
-				for (y = 0; y < Image->Height; y += 4) {
-					for (x = 0; x < Image->Width; x += 4) {
-						for (yBlock = 0; yBlock < 4; yBlock++) {
-							// Skip pad bytes at the bottom of the tile if any.
-							if ((y + yBlock) >= Image->Height) {
-								iseek(16, IL_SEEK_CUR);  // Entire row of pad bytes skipped
-								continue;
-							}
-
-							// First it has the AR data.
-							DataOff = Image->Bps * (y + yBlock) + Image->Bpp * x;
-							for (xBlock = 0; xBlock < 4; xBlock++) {
-								if ((x + xBlock) >= Image->Width) {
-									iseek(2, IL_SEEK_CUR);  // Skip pad bytes.
-									continue;
-								}
-								Image->Data[DataOff+3] = igetc();  // Alpha
-								Image->Data[DataOff] = igetc();  // Red
-								DataOff += 3;
-							}
-
-							// Then it has the GB data.
-							DataOff = Image->Bps * (y + yBlock) + Image->Bpp * x;
-							for (xBlock = 0; xBlock < 4 && x + xBlock < Image->Width; xBlock++) {
-								if ((x + xBlock) >= Image->Width) {
-									iseek(2, IL_SEEK_CUR);  // Skip pad bytes.
-									continue;
-								}
-								Image->Data[DataOff+1] = igetc();  // Green
-								Image->Data[DataOff+2] = igetc();  // Blue
-								DataOff += 3;
-							}
-						}
-					}
-				}
-				break;
-
 			case TPL_CI4:
 			case TPL_CI8:
 			case TPL_CI14X2:
-				// Seek to the palette header.
-				if (iseek(PalOff, IL_SEEK_SET))
+				if (!TplGetIndexImage(Image, TexOff, PalOff, DataFormat))
 					return IL_FALSE;
-				if (!TplGetIndexImage(Image, TexOff, DataFormat))
-					return IL_FALSE;
-				break;
-
-			case TPL_CMP:
-				// S3TC 2x2 blocks of 4x4 tiles.  I am assuming that this is DXT1, since it is not specified in the specs.
-				//  Most of this ended up being copied from il_dds.c, from the DecompressDXT1 function.
-				//@TODO: Make this/that code a bit more modular.
-				for (y = 0; y < Image->Height; y += 8) {
-					for (x = 0; x < Image->Width; x += 8) {
-						for (yBlock = 0; yBlock < 8 && (y + yBlock) < Image->Height; yBlock += 4) {
-							for (xBlock = 0; xBlock < 8 && (x + xBlock) < Image->Width; xBlock += 4) {
-								if (iread(CompData, 1, 8) != 8)
-									return IL_FALSE;  //@TODO: Need to do any cleanup here?
-								color_0 = *((ILushort*)CompData);
-								UShort(&color_0);
-								color_1 = *((ILushort*)(CompData + 2));
-								UShort(&color_1);
-								DxtcReadColor(color_0, colours);
-								DxtcReadColor(color_1, colours + 1);
-								bitmask = ((ILuint*)CompData)[1];
-								UInt(&bitmask);
-
-								if (color_0 > color_1) {
-									// Four-color block: derive the other two colors.
-									// 00 = color_0, 01 = color_1, 10 = color_2, 11 = color_3
-									// These 2-bit codes correspond to the 2-bit fields 
-									// stored in the 64-bit block.
-									colours[2].b = (2 * colours[0].b + colours[1].b + 1) / 3;
-									colours[2].g = (2 * colours[0].g + colours[1].g + 1) / 3;
-									colours[2].r = (2 * colours[0].r + colours[1].r + 1) / 3;
-									//colours[2].a = 0xFF;
-
-									colours[3].b = (colours[0].b + 2 * colours[1].b + 1) / 3;
-									colours[3].g = (colours[0].g + 2 * colours[1].g + 1) / 3;
-									colours[3].r = (colours[0].r + 2 * colours[1].r + 1) / 3;
-									colours[3].a = 0xFF;
-								}
-								else { 
-									// Three-color block: derive the other color.
-									// 00 = color_0,  01 = color_1,  10 = color_2,
-									// 11 = transparent.
-									// These 2-bit codes correspond to the 2-bit fields 
-									// stored in the 64-bit block. 
-									colours[2].b = (colours[0].b + colours[1].b) / 2;
-									colours[2].g = (colours[0].g + colours[1].g) / 2;
-									colours[2].r = (colours[0].r + colours[1].r) / 2;
-									//colours[2].a = 0xFF;
-
-									colours[3].b = (colours[0].b + 2 * colours[1].b + 1) / 3;
-									colours[3].g = (colours[0].g + 2 * colours[1].g + 1) / 3;
-									colours[3].r = (colours[0].r + 2 * colours[1].r + 1) / 3;
-									colours[3].a = 0x00;
-								}
-
-								for (j = 0, k = 0; j < 4; j++) {
-									for (i = 0; i < 4; i++, k++) {
-										Select = (bitmask & (0x03 << k*2)) >> k*2;
-										col = &colours[Select];
-
-										if (((x + xBlock + i) < Image->Width) && ((y + yBlock + j) < Image->Height)) {
-											DataOff = (y + yBlock + j) * Image->Bps + (x + xBlock + i) * Image->Bpp;
-											Image->Data[DataOff + 0] = col->r;
-											Image->Data[DataOff + 1] = col->g;
-											Image->Data[DataOff + 2] = col->b;
-											Image->Data[DataOff + 3] = col->a;
-										}
-									}
-								}
-							}
-						}
-					}
-				}
 				break;
+			default:
+				if (!TplGetTiles(Image, DataFormat, NULL))
+					return IL_FALSE;
 		}
 	}
 
@@ -592,191 +321,213 @@ ILboolean iLoadTplInternal(void)
 }
 
 
-ILboolean TplGetIndexImage(ILimage *Image, ILuint TexOff, ILuint DataFormat)
+static void TplColour565(ILushort Pixel, ILubyte *Col)
 {
-	ILushort	NumPal, ShortPixel;
-	ILubyte		LumVal, BytePixel;
-	ILuint		PalFormat, PalOff, PalBpp, DataOff;
-	ILuint		x, y, xBlock, yBlock, i;
-
-	NumPal = GetBigUShort();
-	iseek(2, IL_SEEK_CUR);  // Do we need to do anything with the 'unpacked' entry?  I see nothing in the specs about it.
-	PalFormat = GetBigUInt();
+	Col[0] = ((Pixel & 0xF800) >> 8) | ((Pixel & 0xE000) >> 13);  // Red
+	Col[1] = ((Pixel & 0x07E0) >> 3) | ((Pixel & 0x0600) >> 9);   // Green
+	Col[2] = ((Pixel & 0x001F) << 3) | ((Pixel & 0x001C) >> 2);   // Blue
+}
 
-	// Now we have to find out where the actual palette data is stored.
-	//@TODO: Do we need to set any errors here?
-	PalOff = GetBigUInt();
-	if (iseek(PalOff, IL_SEEK_SET))
-		return IL_FALSE;
 
-	switch (PalFormat)
-	{
-		case TPL_PAL_IA8:
-			Image->Pal.Palette = (ILubyte*)ialloc(NumPal * 4);
-			if (Image->Pal.Palette == NULL)
-				return IL_FALSE;
-			Image->Pal.PalType = IL_PAL_RGBA32;  //@TODO: Use this format natively.
-			Image->Pal.PalSize = NumPal * 4;
-			PalBpp = 4;
+static void TplColour5A3(ILushort Pixel, ILubyte *Col)
+{
+	if (Pixel & 0x8000) {  // We have RGB5, which is opaque.
+		Col[0] = ((Pixel & 0x7C00) >> 7) | ((Pixel & 0x7000) >> 12);
+		Col[1] = ((Pixel & 0x03E0) >> 2) | ((Pixel & 0x0380) >> 7);
+		Col[2] = ((Pixel & 0x001F) << 3) | ((Pixel & 0x001C) >> 2);
+		Col[3] = 0xFF;
+	}
+	else {  // We have A3RGB4.
+		Col[0] = ((Pixel & 0x0F00) >> 8) * 0x11;
+		Col[1] = ((Pixel & 0x00F0) >> 4) * 0x11;
+		Col[2] = (Pixel & 0x000F) * 0x11;
+		Pixel = (Pixel & 0x7000) >> 12;
+		Col[3] = (ILubyte)((Pixel << 5) | (Pixel << 2) | (Pixel >> 1));
+	}
+}
 
-			for (i = 0; i < NumPal; i++) {
-				LumVal = igetc();
-				//@TODO: Do proper conversion of luminance, or support this format natively.
-				Image->Pal.Palette[i * 4] = LumVal;  // Assign the luminance value.
-				Image->Pal.Palette[i * 4 + 1] = LumVal;
-				Image->Pal.Palette[i * 4 + 2] = LumVal;
-				Image->Pal.Palette[i * 4 + 3] = igetc();  // Get alpha value.
-			}
-			break;
 
-		case TPL_PAL_RGB565:
-			Image->Pal.Palette = (ILubyte*)ialloc(NumPal * 3);
-			if (Image->Pal.Palette == NULL)
-				return IL_FALSE;
-			Image->Pal.PalType = IL_PAL_RGB24;
-			Image->Pal.PalSize = NumPal * 3;
-			PalBpp = 3;
-
-			for (i = 0; i < NumPal; i++) {
-				ShortPixel = GetBigUShort();
-				// This is mostly the same code as in the TPL_RGB565 case.
-				Image->Pal.Palette[i*3] = ((ShortPixel & 0xF800) >> 8) | ((ShortPixel & 0xE000) >> 13); // Red
-				Image->Pal.Palette[i*3+1] = ((ShortPixel & 0x7E0) >> 3) | ((ShortPixel & 0x600) >> 9); // Green
-				Image->Pal.Palette[i*3+2] = ((ShortPixel & 0x1f) << 3) | ((ShortPixel & 0x1C) >> 2); // Blue
-			}
-			break;
+// One of the four DXT1-like blocks of 4x4 pixels in a tile, everything is big endian.
+static void TplColourBlock(const ILubyte *Block, ILubyte Out[16][4])
+{
+	ILubyte	Col[4][4];
+	ILuint	i, c0 = (Block[0] << 8) | Block[1], c1 = (Block[2] << 8) | Block[3];
+
+	TplColour565((ILushort)c0, Col[0]);
+	TplColour565((ILushort)c1, Col[1]);
+	for (i = 0; i < 3; i++) {
+		if (c0 > c1) {
+			Col[2][i] = (ILubyte)((2 * Col[0][i] + Col[1][i] + 1) / 3);
+			Col[3][i] = (ILubyte)((Col[0][i] + 2 * Col[1][i] + 1) / 3);
+		}
+		else {
+			Col[2][i] = (ILubyte)((Col[0][i] + Col[1][i]) / 2);
+			Col[3][i] = Col[2][i];
+		}
+	}
+	Col[0][3] = Col[1][3] = Col[2][3] = 0xFF;
+	Col[3][3] = c0 > c1 ? 0xFF : 0;
 
-		case TPL_PAL_RGB5A3:
-			Image->Pal.Palette = (ILubyte*)ialloc(NumPal * 4);
-			if (Image->Pal.Palette == NULL)
-				return IL_FALSE;
-			Image->Pal.PalType = IL_PAL_RGBA32;
-			Image->Pal.PalSize = NumPal * 4;
-			PalBpp = 4;
-
-			for (i = 0; i < NumPal; i++) {
-				ShortPixel = GetBigUShort();
-				// This is mostly the same code as in the TPL_RGB565 case.
-				if (ShortPixel & 0x8000) {  // Check MSB.
-					// We have RGB5.
-					Image->Pal.Palette[i*4] = ((ShortPixel & 0x7C00) >> 7) | ((ShortPixel & 0x7000) >> 12); // Red
-					Image->Pal.Palette[i*4+1] = ((ShortPixel & 0x3E0) >> 2) | ((ShortPixel & 0x380) >> 7); // Green
-					Image->Pal.Palette[i*4+2] = ((ShortPixel & 0x1F) << 3) | ((ShortPixel & 0x1C) >> 2); // Blue
-					Image->Pal.Palette[i*4+3] = 0xFF;  // I am just assuming that it is opaque.
-				}
-				else {
-					// We have RGB4A3.
-					Image->Pal.Palette[i*4] = ((ShortPixel & 0x7800) >> 7) | ((ShortPixel & 0x7800) >> 11); // Red
-					Image->Pal.Palette[i*4+1] = ((ShortPixel & 0x0780) >> 3) | ((ShortPixel & 0x0780) >> 7); // Green
-					Image->Pal.Palette[i*4+2] = ((ShortPixel & 0x0078) << 1) | ((ShortPixel & 0x0078) >> 3); // Blue
-					Image->Pal.Palette[i*4+3] = ((ShortPixel & 0x07) << 5) | ((ShortPixel & 0x07) << 2) | (ShortPixel >> 1); // Alpha
-				}
-			}
-			break;
+	for (i = 0; i < 16; i++)
+		memcpy(Out[i], Col[(Block[4 + i / 4] >> (6 - 2 * (i % 4))) & 3], 4);
+}
 
-		default:
-			ilSetError(IL_ILLEGAL_FILE_VALUE);
-			return IL_FALSE;
-	}
 
-	// Go back to the texture data.
-	if (iseek(TexOff, IL_SEEK_SET))
-		return IL_FALSE;
+// Reads the tiles of an image.  Pal has the RGBA colours of TPL_CI14X2.
+static ILboolean TplGetTiles(ILimage *Image, ILuint DataFormat, const ILubyte *Pal)
+{
+	ILubyte	Tile[64], Colours[16][4], *Dat;
+	ILuint	TileW, TileH, TileSize, x, y, i, p, Pixel;
 
+	TileW = TileH = 4;
+	TileSize = 32;
 	switch (DataFormat)
 	{
+		case TPL_I4:
 		case TPL_CI4:
-			// 8x8 tiles of 4-bit color indices
-			//  This is the exact same code as the TPL_I4 case.
-			for (y = 0; y < Image->Height; y += 8) {
-				for (x = 0; x < Image->Width; x += 8) {
-					for (yBlock = 0; yBlock < 8; yBlock++) {
-						if ((y + yBlock) >= Image->Height) {
-							iseek(8, IL_SEEK_CUR);  // Entire row of pad bytes skipped.
-							continue;
-						}
-						DataOff = Image->Bps * (y + yBlock) + Image->Bpp * x;
-						for (xBlock = 0; xBlock < 8; xBlock += 2) {
-							BytePixel = igetc();
-							if ((x + xBlock) >= Image->Width)
-								continue;  // Already read the pad byte.
-							Image->Data[DataOff] = (BytePixel & 0xF0) | (BytePixel & 0xF0) >> 4;
-							DataOff++;
-							// We have to do this check again, so we do not go past the last pixel in the image (ex. 1 pixel wide image).
-							if ((x + xBlock) >= Image->Width)
-								continue;  // Already read the pad byte.
-							Image->Data[DataOff+1] = (BytePixel & 0x0F) << 4 | (BytePixel & 0x0F);
-							DataOff++;
-						}
-					}
-				}
-			}
+		case TPL_CMP:
+			TileW = TileH = 8;
 			break;
-
+		case TPL_I8:
+		case TPL_IA4:
 		case TPL_CI8:
-			// 8x4 tiles of 8-bit intensity values
-			//  This is the exact same code as the TPL_I8 case.
-			for (y = 0; y < Image->Height; y += 4) {
-				for (x = 0; x < Image->Width; x += 8) {
-					for (yBlock = 0; yBlock < 4; yBlock++) {
-						if ((y + yBlock) >= Image->Height) {
-							iseek(8, IL_SEEK_CUR);  // Entire row of pad bytes skipped.
-							continue;
-						}
-						DataOff = Image->Bps * (y + yBlock) + Image->Bpp * x;
-						for (xBlock = 0; xBlock < 8; xBlock++) {
-							if ((x + xBlock) >= Image->Width) {
-								igetc();  // Skip the pad byte.
-								continue;
-							}
-							Image->Data[DataOff] = igetc();  // Color index
-							DataOff++;
-						}
-					}
-				}
-			}
+			TileW = 8;
 			break;
+		case TPL_RGBA8:
+			TileSize = 64;
+			break;
+	}
 
-
-		//@TODO: Convert to more formats than just RGBA.
-		case TPL_CI14X2:
-			// 4x4 tiles of 14-bit indices into a palette.  Not supported at all in DevIL, since
-			//  it has a huge palette (> 256 colors).  Convert to RGBA.
-			for (y = 0; y < Image->Height; y += 4) {
-				for (x = 0; x < Image->Width; x += 4) {
-					for (yBlock = 0; yBlock < 4; yBlock++) {
-						if ((y + yBlock) >= Image->Height) {
-							iseek(8, IL_SEEK_CUR);  // Entire row of pad bytes skipped.
-							continue;
-						}
-						DataOff = Image->Bps * (y + yBlock) + Image->Bpp * x;
-						for (xBlock = 0; xBlock < 4; xBlock++) {
-							if ((x + xBlock) >= Image->Width) {
-								GetBigUShort();  // Skip the pad short.
-								continue;
-							}
-							ShortPixel = GetBigUShort();
-							ShortPixel >>= 2;  // Lower 2 bits are padding bits.
-							Image->Data[DataOff] = Image->Pal.Palette[ShortPixel * PalBpp];
-							Image->Data[DataOff+1] = Image->Pal.Palette[ShortPixel * PalBpp + 1];
-							Image->Data[DataOff+2] = Image->Pal.Palette[ShortPixel * PalBpp + 2];
-							if (PalFormat == TPL_PAL_RGB565)
-								Image->Data[DataOff+3] = 0xFF;
-							else
-								Image->Data[DataOff+3] = Image->Pal.Palette[ShortPixel * PalBpp + 3];
-							DataOff++;
-						}
-					}
+	for (y = 0; y < Image->Height; y += TileH) {
+		for (x = 0; x < Image->Width; x += TileW) {
+			if (iread(Tile, 1, TileSize) != TileSize)
+				return IL_FALSE;
+			for (i = 0; i < TileW * TileH; i++) {
+				ILuint xp = x + i % TileW, yp = y + i / TileW;
+
+				if (DataFormat == TPL_CMP && i % 16 == 0)
+					TplColourBlock(Tile + i / 2, Colours);
+				if (DataFormat == TPL_CMP) {  // Block by block
+					xp = x + (i / 16 % 2) * 4 + i % 4;
+					yp = y + (i / 32) * 4 + i % 16 / 4;
+				}
+				if (xp >= Image->Width || yp >= Image->Height)
+					continue;  // Padding
+				Dat = Image->Data + yp * Image->Bps + xp * Image->Bpp;
+				Pixel = (Tile[(i * 2) % 64] << 8) | Tile[(i * 2 + 1) % 64];  // Of the formats with 16 bits
+
+				switch (DataFormat)
+				{
+					case TPL_I4:
+					case TPL_CI4:
+						p = (Tile[i / 2] >> (i & 1 ? 0 : 4)) & 0x0F;
+						*Dat = (ILubyte)(DataFormat == TPL_I4 ? p * 0x11 : p);
+						break;
+					case TPL_I8:
+					case TPL_CI8:
+						*Dat = Tile[i];
+						break;
+					case TPL_IA4:
+						Dat[0] = (Tile[i] & 0x0F) * 0x11;  // Intensity
+						Dat[1] = (Tile[i] >> 4) * 0x11;    // Alpha
+						break;
+					case TPL_IA8:
+						Dat[0] = (ILubyte)Pixel;
+						Dat[1] = (ILubyte)(Pixel >> 8);
+						break;
+					case TPL_RGB565:
+						TplColour565((ILushort)Pixel, Dat);
+						break;
+					case TPL_RGB5A3:
+						TplColour5A3((ILushort)Pixel, Dat);
+						break;
+					case TPL_RGBA8:  // Alpha and red, then green and blue
+						Dat[3] = Tile[i * 2];
+						Dat[0] = Tile[i * 2 + 1];
+						Dat[1] = Tile[32 + i * 2];
+						Dat[2] = Tile[32 + i * 2 + 1];
+						break;
+					case TPL_CI14X2:
+						memcpy(Dat, Pal + (Pixel & 0x3FFF) * 4, 4);
+						break;
+					case TPL_CMP:
+						memcpy(Dat, Colours[i % 16], 4);
+						break;
 				}
 			}
-			// Get rid of the palette, since we no longer need it.
-			ifree(Image->Pal.Palette);
-			Image->Pal.PalType = IL_PAL_NONE;
-			Image->Pal.PalSize = 0;
-			break;
-
+		}
 	}
 
 	return IL_TRUE;
 }
+
+
+static ILboolean TplGetIndexImage(ILimage *Image, ILuint TexOff, ILuint PalOff, ILuint DataFormat)
+{
+	ILuint		NumPal, PalFormat, i, MaxPal;
+	ILushort	ShortPixel;
+	ILubyte		*Pal;
+	ILboolean	Ret;
+
+	// Seek to the palette header.
+	if (iseek(PalOff, IL_SEEK_SET))
+		return IL_FALSE;
+	NumPal = GetBigUShort();
+	iseek(2, IL_SEEK_CUR);  // Do we need to do anything with the 'unpacked' entry?  I see nothing in the specs about it.
+	PalFormat = GetBigUInt();
+
+	// Now we have to find out where the actual palette data is stored.
+	PalOff = GetBigUInt();
+	if (iseek(PalOff, IL_SEEK_SET))
+		return IL_FALSE;
+	if (NumPal == 0 || PalFormat > TPL_PAL_RGB5A3) {
+		ilSetError(IL_ILLEGAL_FILE_VALUE);
+		return IL_FALSE;
+	}
+
+	MaxPal = DataFormat == TPL_CI14X2 ? 0x4000 : 256;
+	Pal = (ILubyte*)icalloc(MaxPal, 4);
+	if (Pal == NULL)
+		return IL_FALSE;
+	for (i = 0; i < NumPal && i < MaxPal; i++) {
+		if (iread(&ShortPixel, 2, 1) != 1) {
+			ifree(Pal);
+			return IL_FALSE;
+		}
+		BigUShort(&ShortPixel);
+		switch (PalFormat)
+		{
+			case TPL_PAL_IA8:
+				//@TODO: Do proper conversion of luminance, or support this format natively.
+				memset(Pal + i * 4, ShortPixel & 0xFF, 3);
+				Pal[i * 4 + 3] = (ILubyte)(ShortPixel >> 8);
+				break;
+			case TPL_PAL_RGB565:
+				TplColour565(ShortPixel, Pal + i * 4);
+				Pal[i * 4 + 3] = 0xFF;
+				break;
+			case TPL_PAL_RGB5A3:
+				TplColour5A3(ShortPixel, Pal + i * 4);
+				break;
+		}
+	}
+
+	// Seek back to the texture data.
+	if (iseek(TexOff, IL_SEEK_SET)) {
+		ifree(Pal);
+		return IL_FALSE;
+	}
+	Ret = TplGetTiles(Image, DataFormat, Pal);
+	if (DataFormat == TPL_CI14X2) {
+		ifree(Pal);
+		return Ret;
+	}
+
+	ifree(Image->Pal.Palette);
+	Image->Pal.Palette = Pal;
+	Image->Pal.PalSize = IL_MIN(NumPal, MaxPal) * 4;
+	Image->Pal.PalType = IL_PAL_RGBA32;
+	return Ret;
+}
+
 #endif//IL_NO_TPL
-- 
2.43.0


From 23c4c6c35909084816a0add88192ed50395cf75f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:13 +0000
Subject: [PATCH 032/115] fix: UTX tables and names are checked

---
 DevIL/src-IL/src/il_utx.cpp | 131 ++++++++++++++++++++++--------------
 1 file changed, 80 insertions(+), 51 deletions(-)

diff --git a/DevIL/src-IL/src/il_utx.cpp b/DevIL/src-IL/src/il_utx.cpp
index 4bd71ba..d4c370e 100644
--- a/DevIL/src-IL/src/il_utx.cpp
+++ b/DevIL/src-IL/src/il_utx.cpp
@@ -107,13 +107,14 @@ string GetUtxName(UTXHEADER &Header)
 {
 #define NAME_MAX_LEN 256  //@TODO: Figure out if these can possibly be longer.
 	char	Name[NAME_MAX_LEN];
-	ILubyte	Length = 0;
+	ILuint	Length = 0;
+	ILint	c;
 
 	// New style (Unreal Tournament) name.  This has a byte at the beginning telling
 	//  how long the string is (plus terminating 0), followed by the terminating 0. 
 	if (Header.Version >= 64) {
 		Length = igetc();
-		if (iread(Name, Length, 1) != 1)
+		if (Length == 0 || iread(Name, Length, 1) != 1)
 			return "";
 		if (Name[Length-1] != 0)
 			return "";
@@ -122,12 +123,17 @@ string GetUtxName(UTXHEADER &Header)
 
 	// Old style (Unreal) name.  This string length is unknown, but it is terminated
 	//  by a 0.
-	do {
-		Name[Length++] = igetc();
-	} while (!ieof() && Name[Length-1] != 0 && Length < NAME_MAX_LEN);
+	for (Length = 0; Length < NAME_MAX_LEN; Length++) {
+		c = igetc();
+		if (c == IL_EOF)
+			return "";
+		Name[Length] = (char)c;
+		if (c == 0)
+			break;
+	}
 
 	// Never reached the terminating 0.
-	if (Length == NAME_MAX_LEN && Name[Length-1] != 0)
+	if (Length == NAME_MAX_LEN)
 		return "";
 
 	return string(Name);
@@ -142,14 +148,15 @@ bool GetUtxNameTable(vector <UTXENTRYNAME> &NameEntries, UTXHEADER &Header)
 	// Go to the name table.
 	iseek(Header.NameOffset, IL_SEEK_SET);
 
-	NameEntries.resize(Header.NameCount);
-
 	// Read in the name table.
 	for (NumRead = 0; NumRead < Header.NameCount; NumRead++) {
-		NameEntries[NumRead].Name = GetUtxName(Header);
-		if (NameEntries[NumRead].Name == "")
+		// The table grows while there is something to read, whatever the header says.
+		UTXENTRYNAME Entry;
+		Entry.Name = GetUtxName(Header);
+		if (Entry.Name == "")
 			break;
-		NameEntries[NumRead].Flags = GetLittleUInt();
+		Entry.Flags = GetLittleUInt();
+		NameEntries.push_back(Entry);
 	}
 
 	// Did not read all of the entries (most likely GetUtxName failed).
@@ -242,21 +249,24 @@ bool GetUtxExportTable(vector <UTXEXPORTTABLE> &ExportTable, UTXHEADER &Header)
 	// Go to the name table.
 	iseek(Header.ExportOffset, IL_SEEK_SET);
 
-	// Create ExportCount elements in our array.
-	ExportTable.resize(Header.ExportCount);
-
 	for (i = 0; i < Header.ExportCount; i++) {
-		ExportTable[i].Class = UtxReadCompactInteger();
-		ExportTable[i].Super = UtxReadCompactInteger();
-		ExportTable[i].Group = GetLittleUInt();
-		ExportTable[i].ObjectName = UtxReadCompactInteger();
-		ExportTable[i].ObjectFlags = GetLittleUInt();
-		ExportTable[i].SerialSize = UtxReadCompactInteger();
-		ExportTable[i].SerialOffset = UtxReadCompactInteger();
-
-		ChangeObjectReference(&ExportTable[i].Class, &ExportTable[i].ClassImported);
-		ChangeObjectReference(&ExportTable[i].Super, &ExportTable[i].SuperImported);
-		ChangeObjectReference(&ExportTable[i].Group, &ExportTable[i].GroupImported);
+		UTXEXPORTTABLE Entry;
+
+		if (ieof())
+			return false;
+		memset(&Entry, 0, sizeof(Entry));
+		Entry.Class = UtxReadCompactInteger();
+		Entry.Super = UtxReadCompactInteger();
+		Entry.Group = GetLittleUInt();
+		Entry.ObjectName = UtxReadCompactInteger();
+		Entry.ObjectFlags = GetLittleUInt();
+		Entry.SerialSize = UtxReadCompactInteger();
+		Entry.SerialOffset = UtxReadCompactInteger();
+
+		ChangeObjectReference(&Entry.Class, &Entry.ClassImported);
+		ChangeObjectReference(&Entry.Super, &Entry.SuperImported);
+		ChangeObjectReference(&Entry.Group, &Entry.GroupImported);
+		ExportTable.push_back(Entry);
 	}
 
 	return true;
@@ -270,16 +280,19 @@ bool GetUtxImportTable(vector <UTXIMPORTTABLE> &ImportTable, UTXHEADER &Header)
 	// Go to the name table.
 	iseek(Header.ImportOffset, IL_SEEK_SET);
 
-	// Allocate the name table.
-	ImportTable.resize(Header.ImportCount);
-
 	for (i = 0; i < Header.ImportCount; i++) {
-		ImportTable[i].ClassPackage = UtxReadCompactInteger();
-		ImportTable[i].ClassName = UtxReadCompactInteger();
-		ImportTable[i].Package = GetLittleUInt();
-		ImportTable[i].ObjectName = UtxReadCompactInteger();
-
-		ChangeObjectReference(&ImportTable[i].Package, &ImportTable[i].PackageImported);
+		UTXIMPORTTABLE Entry;
+
+		if (ieof())
+			return false;
+		memset(&Entry, 0, sizeof(Entry));
+		Entry.ClassPackage = UtxReadCompactInteger();
+		Entry.ClassName = UtxReadCompactInteger();
+		Entry.Package = GetLittleUInt();
+		Entry.ObjectName = UtxReadCompactInteger();
+
+		ChangeObjectReference(&Entry.Package, &Entry.PackageImported);
+		ImportTable.push_back(Entry);
 	}
 
 	return true;
@@ -323,6 +336,19 @@ ILuint UtxFormatToBpp(ILuint Format)
 }
 
 
+// Tells whether an object of the export table is of the given class.
+static bool IsUtxClass(const UTXEXPORTTABLE &Export, const vector <UTXIMPORTTABLE> &ImportTable,
+	const vector <UTXENTRYNAME> &NameEntries, const char *ClassName)
+{
+	if (Export.Class < 0 || (size_t)Export.Class >= ImportTable.size())
+		return false;
+	ILint Name = ImportTable[Export.Class].ObjectName;
+	if (Name < 0 || (size_t)Name >= NameEntries.size())
+		return false;
+	return NameEntries[Name].Name == ClassName;
+}
+
+
 // Internal function used to load the UTX.
 ILboolean iLoadUtxInternal(void)
 {
@@ -335,12 +361,13 @@ ILboolean iLoadUtxInternal(void)
 	ILuint		NumPal = 0, i, j = 0;
 	ILint		Name;
 	ILubyte		Type;
-	ILint		Val;
+	ILint		Val = 0;
 	ILint		Size;
 	ILint		Width, Height, PalEntry;
 	ILboolean	BaseCreated = IL_FALSE, HasPal;
 	ILint		Format;
 	ILubyte		*CompData = NULL;
+	ILuint		DxtcSize;
 
 	if (iCurImage == NULL) {
 		ilSetError(IL_ILLEGAL_OPERATION);
@@ -364,7 +391,7 @@ ILboolean iLoadUtxInternal(void)
 
 	// Find the number of palettes in the export table.
 	for (i = 0; i < Header.ExportCount; i++) {
-		if (NameEntries[ImportTable[ExportTable[i].Class].ObjectName].Name == "Palette")
+		if (IsUtxClass(ExportTable[i], ImportTable, NameEntries, "Palette"))
 			NumPal++;
 	}
 	Palettes.resize(NumPal);
@@ -372,11 +399,13 @@ ILboolean iLoadUtxInternal(void)
 	// Read in all of the palettes.
 	NumPal = 0;
 	for (i = 0; i < Header.ExportCount; i++) {
-		if (NameEntries[ImportTable[ExportTable[i].Class].ObjectName].Name == "Palette") {
+		if (IsUtxClass(ExportTable[i], ImportTable, NameEntries, "Palette")) {
 			Palettes[NumPal].Name = i;
-			iseek(ExportTable[NumPal].SerialOffset, IL_SEEK_SET);
+			iseek(ExportTable[i].SerialOffset, IL_SEEK_SET);
 			Name = igetc();  // Skip the 2.  @TODO: Can there be more in front of the palettes?
 			Palettes[NumPal].Count = UtxReadCompactInteger();
+			if (Palettes[NumPal].Count == 0 || Palettes[NumPal].Count > 256)
+				return IL_FALSE;
 			Palettes[NumPal].Pal = new ILubyte[Palettes[NumPal].Count * 4];
 			if (iread(Palettes[NumPal].Pal, Palettes[NumPal].Count * 4, 1) != 1)
 				return IL_FALSE;
@@ -386,13 +415,15 @@ ILboolean iLoadUtxInternal(void)
 
 	for (i = 0; i < Header.ExportCount; i++) {
 		// Find textures in the file.
-		if (NameEntries[ImportTable[ExportTable[i].Class].ObjectName].Name == "Texture") {
+		if (IsUtxClass(ExportTable[i], ImportTable, NameEntries, "Texture")) {
 			iseek(ExportTable[i].SerialOffset, IL_SEEK_SET);
 			Width = -1;  Height = -1;  PalEntry = NumPal;  HasPal = IL_FALSE;  Format = -1;
 
 			do {
 				// Always starts with a comptact integer that gives us an entry into the name table.
 				Name = UtxReadCompactInteger();
+				if (Name < 0 || (size_t)Name >= NameEntries.size())
+					return IL_FALSE;
 				if (NameEntries[Name].Name == "None")
 					break;
 				Type = igetc();
@@ -448,8 +479,7 @@ ILboolean iLoadUtxInternal(void)
 						break;
 				}
 
-				//@TODO: What should we do if Name >= Header.NameCount?
-				if ((ILuint)Name < Header.NameCount) {  // Don't want to go past the end of our array.
+				{
 					if (NameEntries[Name].Name == "Palette") {
 						// If it has references to more than one palette, just use the first one.
 						if (HasPal == IL_FALSE) {
@@ -478,11 +508,12 @@ ILboolean iLoadUtxInternal(void)
 			if (Format == -1)
 				Format = UTX_P8;
 			// Just checks for everything being proper.  If the format is P8, we check to make sure that a palette was found.
-			if (Width == -1 || Height == -1 || (PalEntry == NumPal && Format != UTX_DXT1) || (Format != UTX_P8 && Format != UTX_DXT1))
+			if (Width <= 0 || Height <= 0 || (PalEntry == NumPal && Format != UTX_DXT1) || (Format != UTX_P8 && Format != UTX_DXT1))
 				return IL_FALSE;
 			if (BaseCreated == IL_FALSE) {
 				BaseCreated = IL_TRUE;
-				ilTexImage(Width, Height, 1, UtxFormatToBpp(Format), UtxFormatToDevIL(Format), IL_UNSIGNED_BYTE, NULL);
+				if (!ilTexImage(Width, Height, 1, UtxFormatToBpp(Format), UtxFormatToDevIL(Format), IL_UNSIGNED_BYTE, NULL))
+					return IL_FALSE;
 				Image = iCurImage;
 			}
 			else {
@@ -512,26 +543,24 @@ ILboolean iLoadUtxInternal(void)
 					break;
 
 				case UTX_DXT1:
-					Image->DxtcSize = IL_MAX(Image->Width * Image->Height / 2, 8);
-					CompData = (ILubyte*)ialloc(Image->DxtcSize);
+					DxtcSize = ((Image->Width + 3) / 4) * ((Image->Height + 3) / 4) * 8;
+					CompData = (ILubyte*)ialloc(DxtcSize);
 					if (CompData == NULL)
 						return IL_FALSE;
 
-					if (iread(CompData, Image->DxtcSize, 1) != 1) {
+					if (iread(CompData, DxtcSize, 1) != 1 || DecompressDXT1(Image, CompData) == IL_FALSE) {
 						ifree(CompData);
 						return IL_FALSE;
 					}
 					// Keep a copy of the DXTC data if the user wants it.
 					if (ilGetInteger(IL_KEEP_DXTC_DATA) == IL_TRUE) {
+						ifree(Image->DxtcData);
 						Image->DxtcData = CompData;
 						Image->DxtcFormat = IL_DXT1;
-						CompData = NULL;
+						Image->DxtcSize = DxtcSize;
 					}
-					if (DecompressDXT1(Image, CompData) == IL_FALSE) {
+					else
 						ifree(CompData);
-						return IL_FALSE;
-					}
-					ifree(CompData);
 					break;
 			}
 			Image->Origin = IL_ORIGIN_UPPER_LEFT;
-- 
2.43.0


From 24ba353ee4c503508a99d70249467e829e133911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:13 +0000
Subject: [PATCH 033/115] fix: MP3 picture frames with long descriptions

---
 DevIL/src-IL/src/il_mp3.cpp | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/DevIL/src-IL/src/il_mp3.cpp b/DevIL/src-IL/src/il_mp3.cpp
index c7f0458..6764845 100755
--- a/DevIL/src-IL/src/il_mp3.cpp
+++ b/DevIL/src-IL/src/il_mp3.cpp
@@ -116,7 +116,7 @@ ILboolean iIsValidMp3(void)
 	if (!iGetMp3Head(&Header))
 		return IL_FALSE;
 	// The length of the header varies, so we just go back to the original position.
-	iseek(Pos, IL_SEEK_CUR);
+	iseek(Pos, IL_SEEK_SET);
 
 	return iCheckMp3(&Header);
 }
@@ -127,7 +127,7 @@ ILboolean iCheckMp3(MP3HEAD *Header)
 {
 	if (strncmp(Header->Signature, "ID3", 3))
 		return IL_FALSE;
-	if (Header->VersionMajor != 3 && Header->VersionMinor != 4)
+	if (Header->VersionMajor != 3 && Header->VersionMajor != 4)
 		return IL_FALSE;
 
 	return IL_TRUE;
@@ -139,7 +139,8 @@ ILuint iFindMp3Pic(MP3HEAD *Header)
 	char	ID[4];
 	ILuint	FrameSize;
 	ILubyte	TextEncoding;
-	ILubyte	MimeType[65], Description[65];
+	ILubyte	MimeType[65];
+	ILint	c;
 	ILubyte	PicType;
 	ILuint	i;
 	ILuint	Type = MP3_NONE;
@@ -165,7 +166,7 @@ ILuint iFindMp3Pic(MP3HEAD *Header)
 					break;
 			}
 			// The MimeType must be terminated by 0 in the file by the specs.
-			if (MimeType[i] != 0)
+			if (i == 65)
 				return MP3_NONE;
 			if (!strcmp((char*)MimeType, "image/jpeg"))
 				Type = MP3_JPG;
@@ -177,17 +178,17 @@ ILuint iFindMp3Pic(MP3HEAD *Header)
 			PicType = igetc();  // Whether this is a cover, band logo, etc.
 
 			// Skip the description.
-			for (i = 0; i < 65; i++) {
-				Description[i] = igetc();
-				if (Description[i] == 0)
-					break;
-			}
-			if (Description[i] != 0)
+			do {
+				c = igetc();
+			} while (c != 0 && c != IL_EOF);
+			if (c == IL_EOF)
 				return MP3_NONE;
 			return Type;
 		}
 		else {
-			iseek(FrameSize, IL_SEEK_CUR);
+			// The frame has to be in the tag.
+			if (FrameSize > Header->Length || iseek(FrameSize, IL_SEEK_CUR))
+				return MP3_NONE;
 		}
 
 		//if (!strncmp(MimeType, "
-- 
2.43.0


From 0b18c944c583ec93f6dac8de609052da1e6fa932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:52 +0000
Subject: [PATCH 034/115] fix: ICO loader bounds its palettes and rows and
 checks header values

---
 DevIL/src-IL/src/il_icon.cpp | 314 ++++++++++++++---------------------
 1 file changed, 123 insertions(+), 191 deletions(-)

diff --git a/DevIL/src-IL/src/il_icon.cpp b/DevIL/src-IL/src/il_icon.cpp
index 23adb16..aa176c3 100644
--- a/DevIL/src-IL/src/il_icon.cpp
+++ b/DevIL/src-IL/src/il_icon.cpp
@@ -68,7 +68,8 @@ ILboolean iLoadIconInternal()
 	ICOIMAGE	*IconImages = NULL;
 	ILimage		*Image = NULL;
 	ILint		i;
-	ILuint		Size, PadSize, ANDPadSize, j, k, l, m, x, w, CurAndByte, AndBytes;
+	ILuint		Size, Width, Height, Bps, ANDBps, Bits, x, y;
+	ILubyte		*Row, *ANDRow, *Pixel, *Colour;
 	ILboolean	BaseCreated = IL_FALSE;
 	ILubyte		PNGTest[3];
 
@@ -83,6 +84,10 @@ ILboolean iLoadIconInternal()
 
 	if (ieof())
 		goto file_read_error;
+	if (IconDir.Count <= 0) {
+		ilSetError(IL_INVALID_FILE_HEADER);
+		return IL_FALSE;
+	}
 
 	DirEntries = (ICODIRENTRY*)ialloc(sizeof(ICODIRENTRY) * IconDir.Count);
 	IconImages = (ICOIMAGE*)ialloc(sizeof(ICOIMAGE) * IconDir.Count);
@@ -115,7 +120,8 @@ ILboolean iLoadIconInternal()
 
 		// 08-22-2008: Adding test for compressed PNG data
 		igetc(); // Skip the first character...seems to vary.
-		iread(PNGTest, 3, 1);
+		if (iread(PNGTest, 3, 1) != 1)
+			goto file_read_error;
 		if (!strnicmp((char*)PNGTest, "PNG", 3))  // Characters 'P', 'N', 'G' for PNG header
 		{
 #ifdef IL_NO_PNG
@@ -147,48 +153,49 @@ ILboolean iLoadIconInternal()
 			if (ieof())
 				goto file_read_error;
 
-			if (IconImages[i].Head.BitCount < 8) {
-				if (IconImages[i].Head.ColourUsed == 0) {
-					switch (IconImages[i].Head.BitCount)
-					{
-						case 1:
-							IconImages[i].Head.ColourUsed = 2;
-							break;
-						case 4:
-							IconImages[i].Head.ColourUsed = 16;
-							break;
-					}
+			if (IconImages[i].Head.Width <= 0 || IconImages[i].Head.Height <= 1 ||
+				IconImages[i].Head.Width > 0xFFFF || IconImages[i].Head.Height > 0x1FFFF) {
+				ilSetError(IL_ILLEGAL_FILE_VALUE);
+				goto file_read_error;
+			}
+
+			Bits = (ILushort)IconImages[i].Head.BitCount;
+			if (Bits != 1 && Bits != 4 && Bits != 8 && Bits != 24 && Bits != 32)
+				continue;  // Not supported, so this picture is left out.
+
+			IconImages[i].Pal = NULL;
+			if (Bits <= 8) {
+				ILuint NumCols = 1 << Bits;
+				if (Bits < 8 && IconImages[i].Head.ColourUsed != 0)
+					NumCols = IconImages[i].Head.ColourUsed;
+				if (NumCols > 256) {
+					ilSetError(IL_ILLEGAL_FILE_VALUE);
+					goto file_read_error;
 				}
-				IconImages[i].Pal = (ILubyte*)ialloc(IconImages[i].Head.ColourUsed * 4);
+				// Always has room for every index that the data can hold.
+				IconImages[i].Pal = (ILubyte*)icalloc(256, 4);
 				if (IconImages[i].Pal == NULL)
 					goto file_read_error;  // @TODO: Rename the label.
-				if (iread(IconImages[i].Pal, IconImages[i].Head.ColourUsed * 4, 1) != 1)
-					goto file_read_error;
-			}
-			else if (IconImages[i].Head.BitCount == 8) {
-				IconImages[i].Pal = (ILubyte*)ialloc(256 * 4);
-				if (IconImages[i].Pal == NULL)
-					goto file_read_error;
-				if (iread(IconImages[i].Pal, 1, 256 * 4) != 256*4)
+				if (iread(IconImages[i].Pal, NumCols * 4, 1) != 1)
 					goto file_read_error;
 			}
-			else {
-				IconImages[i].Pal = NULL;
-			}
-
-			PadSize = (4 - ((IconImages[i].Head.Width*IconImages[i].Head.BitCount + 7) / 8) % 4) % 4;  // Has to be DWORD-aligned.
-			ANDPadSize = (4 - ((IconImages[i].Head.Width + 7) / 8) % 4) % 4;  // AND is 1 bit/pixel
-			Size = ((IconImages[i].Head.Width*IconImages[i].Head.BitCount + 7) / 8 + PadSize)
-								* (IconImages[i].Head.Height / 2);
-
 
+			// Rows are DWORD-aligned.
+			Width = IconImages[i].Head.Width;
+			Height = IconImages[i].Head.Height / 2;
+			Size = ((Width * Bits + 31) / 32) * 4;
+			if (Size > 0x7FFFFFFF / Height) {
+				ilSetError(IL_ILLEGAL_FILE_VALUE);
+				goto file_read_error;
+			}
+			Size *= Height;
 			IconImages[i].Data = (ILubyte*)ialloc(Size);
 			if (IconImages[i].Data == NULL)
 				goto file_read_error;
 			if (iread(IconImages[i].Data, 1, Size) != Size)
 				goto file_read_error;
 
-			Size = (((IconImages[i].Head.Width + 7) /8) + ANDPadSize) * (IconImages[i].Head.Height / 2);
+			Size = ((Width + 31) / 32) * 4 * Height;  // AND is 1 bit/pixel
 			IconImages[i].AND = (ILubyte*)ialloc(Size);
 			if (IconImages[i].AND == NULL)
 				goto file_read_error;
@@ -199,164 +206,79 @@ ILboolean iLoadIconInternal()
 
 
 	for (i = 0; i < IconDir.Count; i++) {
-		if (IconImages[i].Head.BitCount != 1 && IconImages[i].Head.BitCount != 4 &&
-			IconImages[i].Head.BitCount != 8 && IconImages[i].Head.BitCount != 24 &&
-
-			IconImages[i].Head.BitCount != 32)
+		if (IconImages[i].Data == NULL)
 			continue;
 
+		Width = IconImages[i].Head.Width;
+		Height = IconImages[i].Head.Height;
+		Bits = IconImages[i].Head.BitCount;
+		if (IconImages[i].Head.Size == 0) {  // PNG compressed icon
+			Bps = Width * (Bits / 8);
+		}
+		else {
+			Height /= 2;
+			Bps = ((Width * Bits + 31) / 32) * 4;
+		}
+		ANDBps = ((Width + 31) / 32) * 4;
+
 		if (!BaseCreated) {
-			if (IconImages[i].Head.Size == 0)  // PNG compressed icon
-				ilTexImage(IconImages[i].Head.Width, IconImages[i].Head.Height, 1, 4, IL_BGRA, IL_UNSIGNED_BYTE, NULL);
-			else
-				ilTexImage(IconImages[i].Head.Width, IconImages[i].Head.Height / 2, 1, 4, IL_BGRA, IL_UNSIGNED_BYTE, NULL);
-			iCurImage->Origin = IL_ORIGIN_LOWER_LEFT;
+			if (!ilTexImage(Width, Height, 1, 4, IL_BGRA, IL_UNSIGNED_BYTE, NULL))
+				goto file_read_error;
 			Image = iCurImage;
 			BaseCreated = IL_TRUE;
 		}
 		else {
-			if (IconImages[i].Head.Size == 0)  // PNG compressed icon
-				Image->Next = ilNewImage(IconImages[i].Head.Width, IconImages[i].Head.Height, 1, 4, 1);
-			else
-				Image->Next = ilNewImage(IconImages[i].Head.Width, IconImages[i].Head.Height / 2, 1, 4, 1);
+			Image->Next = ilNewImage(Width, Height, 1, 4, 1);
+			if (Image->Next == NULL)
+				goto file_read_error;
 			Image = Image->Next;
 			Image->Format = IL_BGRA;
 		}
 		Image->Type = IL_UNSIGNED_BYTE;
+		Image->Origin = IL_ORIGIN_LOWER_LEFT;
 
-		j = 0;  k = 0;  l = 128;  CurAndByte = 0; x = 0;
-
-		w = IconImages[i].Head.Width;
-		PadSize = (4 - ((w*IconImages[i].Head.BitCount + 7) / 8) % 4) % 4;  // Has to be DWORD-aligned.
-
-		ANDPadSize = (4 - ((w + 7) / 8) % 4) % 4;  // AND is 1 bit/pixel
-		AndBytes = (w + 7) / 8;
-
-		if (IconImages[i].Head.BitCount == 1) {
-			for (; j < Image->SizeOfData; k++) {
-				for (m = 128; m && x < w; m >>= 1) {
-					Image->Data[j] = IconImages[i].Pal[!!(IconImages[i].Data[k] & m) * 4];
-					Image->Data[j+1] = IconImages[i].Pal[!!(IconImages[i].Data[k] & m) * 4 + 1];
-					Image->Data[j+2] = IconImages[i].Pal[!!(IconImages[i].Data[k] & m) * 4 + 2];
-					Image->Data[j+3] = (IconImages[i].AND[CurAndByte] & l) != 0 ? 0 : 255;
-					j += 4;
-					l >>= 1;
-
-					++x;
-				}
-				if (l == 0 || x == w) {
-					l = 128;
-					CurAndByte++;
-					if (x == w) {
-						CurAndByte += ANDPadSize;
-						k += PadSize;
-						x = 0;
-					}
-
-				}
-			}
-		}
-		else if (IconImages[i].Head.BitCount == 4) {
-			for (; j < Image->SizeOfData; j += 8, k++) {
-				Image->Data[j] = IconImages[i].Pal[((IconImages[i].Data[k] & 0xF0) >> 4) * 4];
-				Image->Data[j+1] = IconImages[i].Pal[((IconImages[i].Data[k] & 0xF0) >> 4) * 4 + 1];
-				Image->Data[j+2] = IconImages[i].Pal[((IconImages[i].Data[k] & 0xF0) >> 4) * 4 + 2];
-				Image->Data[j+3] = (IconImages[i].AND[CurAndByte] & l) != 0 ? 0 : 255;
-				l >>= 1;
-
-				++x;
-
-				if(x < w) {
-					Image->Data[j+4] = IconImages[i].Pal[(IconImages[i].Data[k] & 0x0F) * 4];
-					Image->Data[j+5] = IconImages[i].Pal[(IconImages[i].Data[k] & 0x0F) * 4 + 1];
-					Image->Data[j+6] = IconImages[i].Pal[(IconImages[i].Data[k] & 0x0F) * 4 + 2];
-					Image->Data[j+7] = (IconImages[i].AND[CurAndByte] & l) != 0 ? 0 : 255;
-					l >>= 1;
-
-					++x;
-
-				}
-
-				else
-
-					j -= 4;
-
+		for (y = 0; y < Height; y++) {
+			Row = IconImages[i].Data + y * Bps;
+			ANDRow = IconImages[i].AND == NULL ? NULL : IconImages[i].AND + y * ANDBps;
+			Pixel = Image->Data + y * Image->Bps;
 
-				if (l == 0 || x == w) {
-					l = 128;
-					CurAndByte++;
-					if (x == w) {
-						CurAndByte += ANDPadSize;
-
-						k += PadSize;
-						x = 0;
-					}
-				}
-			}
-		}
-		else if (IconImages[i].Head.BitCount == 8) {
-			for (; j < Image->SizeOfData; j += 4, k++) {
-				Image->Data[j] = IconImages[i].Pal[IconImages[i].Data[k] * 4];
-				Image->Data[j+1] = IconImages[i].Pal[IconImages[i].Data[k] * 4 + 1];
-				Image->Data[j+2] = IconImages[i].Pal[IconImages[i].Data[k] * 4 + 2];
-				if (IconImages[i].AND == NULL)  // PNG Palette
+			for (x = 0; x < Width; x++, Pixel += 4) {
+				switch (Bits)
 				{
-					Image->Data[j+3] = IconImages[i].Pal[IconImages[i].Data[k] * 4 + 3];
+					case 1:
+						Colour = IconImages[i].Pal + ((Row[x / 8] >> (7 - x % 8)) & 1) * 4;
+						break;
+					case 4:
+						Colour = IconImages[i].Pal + ((Row[x / 2] >> (x % 2 ? 0 : 4)) & 0x0F) * 4;
+						break;
+					case 8:
+						Colour = IconImages[i].Pal + Row[x] * 4;
+						break;
+					default:
+						Colour = Row + x * (Bits / 8);
 				}
-				else
-				{
-					Image->Data[j+3] = (IconImages[i].AND[CurAndByte] & l) != 0 ? 0 : 255;
-				}
-				l >>= 1;
-
-				++x;
-				if (l == 0 || x == w) {
-					l = 128;
-					CurAndByte++;
-					if (x == w) {
-						CurAndByte += ANDPadSize;
-
-						k += PadSize;
-						x = 0;
-					}
-				}
-			}
-		}
-		else if (IconImages[i].Head.BitCount == 24) {
-			for (; j < Image->SizeOfData; j += 4, k += 3) {
-				Image->Data[j] = IconImages[i].Data[k];
-				Image->Data[j+1] = IconImages[i].Data[k+1];
-				Image->Data[j+2] = IconImages[i].Data[k+2];
-				Image->Data[j+3] = (IconImages[i].AND[CurAndByte] & l) != 0 ? 0 : 255;
-				l >>= 1;
-
-				++x;
-				if (l == 0 || x == w) {
-					l = 128;
-					CurAndByte++;
-					if (x == w) {
-						CurAndByte += ANDPadSize;
-
-						k += PadSize;
-						x = 0;
-					}
-				}
-			}
-		}
 
-		else if (IconImages[i].Head.BitCount == 32) {
-			for (; j < Image->SizeOfData; j += 4, k += 4) {
-				Image->Data[j] = IconImages[i].Data[k];
-				Image->Data[j+1] = IconImages[i].Data[k+1];
-				Image->Data[j+2] = IconImages[i].Data[k+2];
-
-				//If the icon has 4 channels, use 4th channel for alpha...
-				//(for Windows XP style icons with true alpha channel
-				Image->Data[j+3] = IconImages[i].Data[k+3];
+				Pixel[0] = Colour[0];
+				Pixel[1] = Colour[1];
+				Pixel[2] = Colour[2];
+				// If the icon has 4 channels, use 4th channel for alpha...
+				// (for Windows XP style icons with true alpha channel)
+				if (Bits == 32)
+					Pixel[3] = Colour[3];
+				else if (ANDRow != NULL)
+					Pixel[3] = (ANDRow[x / 8] >> (7 - x % 8)) & 1 ? 0 : 255;
+				else if (Bits == 8)  // PNG palette
+					Pixel[3] = Colour[3];
+				else
+					Pixel[3] = 255;
 			}
 		}
 	}
 
+	if (!BaseCreated) {
+		ilSetError(IL_FORMAT_NOT_SUPPORTED);
+		goto file_read_error;
+	}
 
 	for (i = 0; i < IconDir.Count; i++) {
 		ifree(IconImages[i].Pal);
@@ -407,8 +329,10 @@ ILboolean iLoadIconPNG(ICOIMAGE *Icon)
 	init = ico_readpng_init();
 	if (init)
 		return IL_FALSE;
-	if (!ico_readpng_get_image(Icon, GAMMA_CORRECTION))
+	if (!ico_readpng_get_image(Icon, GAMMA_CORRECTION)) {
+		ico_readpng_cleanup();
 		return IL_FALSE;
+	}
 
 	ico_readpng_cleanup();
 	Icon->Head.Size = 0;	// Easiest way to tell that this is a PNG.
@@ -424,8 +348,8 @@ ILboolean iLoadIconPNG(ICOIMAGE *Icon)
 #ifndef IL_NO_PNG
 static void ico_png_read(png_structp png_ptr, png_bytep data, png_size_t length)
 {
-	(void)png_ptr;
-	iread(data, 1, (ILuint)length);
+	if (iread(data, 1, (ILuint)length) != length)
+		png_error(png_ptr, "read error");
 	return;
 }
 
@@ -499,7 +423,7 @@ ILint ico_readpng_init()
 
 ILboolean ico_readpng_get_image(ICOIMAGE *Icon, ILdouble display_exponent)
 {
-	png_bytepp	row_pointers = NULL;
+	png_bytepp	volatile row_pointers = NULL;
 	png_uint_32 width, height; // Changed the type to fix AMD64 bit problems, thanks to Eric Werness
 	ILdouble	screen_gamma = 1.0;
 	ILuint		i, channels;
@@ -516,6 +440,7 @@ ILboolean ico_readpng_get_image(ICOIMAGE *Icon, ILdouble display_exponent)
 	 * libpng function */
 
 	if (setjmp(png_jmpbuf(ico_png_ptr))) {
+		ifree(row_pointers);
 		png_destroy_read_struct(&ico_png_ptr, &ico_info_ptr, NULL);
 		return IL_FALSE;
 	}
@@ -538,6 +463,13 @@ ILboolean ico_readpng_get_image(ICOIMAGE *Icon, ILdouble display_exponent)
 	png_get_IHDR(ico_png_ptr, ico_info_ptr, (png_uint_32*)&width, (png_uint_32*)&height,
 	             &bit_depth, &ico_color_type, NULL, NULL, NULL);
 
+	if (bit_depth == 16) {	// The icon has 8 bits per channel.
+		bit_depth = 8;
+		png_set_strip_16(ico_png_ptr);
+	}
+	if (ico_color_type == PNG_COLOR_TYPE_GRAY || ico_color_type == PNG_COLOR_TYPE_GRAY_ALPHA)
+		png_set_gray_to_rgb(ico_png_ptr);
+
 	if (bit_depth < 8) {	// Expanded earlier for grayscale, now take care of palette and rgb
 		bit_depth = 8;
 		png_set_packing(ico_png_ptr);
@@ -553,12 +485,8 @@ ILboolean ico_readpng_get_image(ICOIMAGE *Icon, ILdouble display_exponent)
 	screen_gamma = screen_gamma;
 #endif
 
-	//fix endianess
-#ifdef __LITTLE_ENDIAN__
-	if (bit_depth == 16)
-		png_set_swap(ico_png_ptr);
-#endif
-
+	// Must be requested before the information is updated.
+	png_set_bgr(ico_png_ptr);
 
 	png_read_update_info(ico_png_ptr, ico_info_ptr);
 	channels = (ILint)png_get_channels(ico_png_ptr, ico_info_ptr);
@@ -587,12 +515,17 @@ ILboolean ico_readpng_get_image(ICOIMAGE *Icon, ILdouble display_exponent)
 			return IL_FALSE;
 	}
 
-	if (ico_color_type & PNG_COLOR_MASK_COLOR)
-		png_set_bgr(ico_png_ptr);
+	if (width > 0xFFFF || height > 0xFFFF ||
+		png_get_rowbytes(ico_png_ptr, ico_info_ptr) != width * (Icon->Head.BitCount / 8) ||
+		width * (Icon->Head.BitCount / 8) > 0x7FFFFFFF / height) {
+		ilSetError(IL_ILLEGAL_FILE_VALUE);
+		png_destroy_read_struct(&ico_png_ptr, &ico_info_ptr, NULL);
+		return IL_FALSE;
+	}
 
 	Icon->Head.Width = width;
 	Icon->Head.Height = height;
-	Icon->Data = (ILubyte*)ialloc(width * height * Icon->Head.BitCount / 8);
+	Icon->Data = (ILubyte*)icalloc(width * (Icon->Head.BitCount / 8), height);
 	if (Icon->Data == NULL)
 	{
 		png_destroy_read_struct(&ico_png_ptr, &ico_info_ptr, NULL);
@@ -618,18 +551,17 @@ ILboolean ico_readpng_get_image(ICOIMAGE *Icon, ILdouble display_exponent)
 		}
 
 // @TODO: We may need to keep track of the size of the palette.
-		Icon->Pal = (ILubyte*)ialloc(num_palette * chans);
+		Icon->Pal = (ILubyte*)icalloc(256, chans);
+		if (Icon->Pal == NULL) {
+			png_destroy_read_struct(&ico_png_ptr, &ico_info_ptr, NULL);
+			return IL_FALSE;
+		}
 
 		for (j = 0; j < num_palette; ++j) {
 			Icon->Pal[chans*j + 0] = palette[j].blue;
 			Icon->Pal[chans*j + 1] = palette[j].green;
 			Icon->Pal[chans*j + 2] = palette[j].red;
-			if (trans != NULL) {
-				if (j < num_trans)
-					Icon->Pal[chans*j + 3] = trans[j];
-				else
-					Icon->Pal[chans*j + 3] = 255;
-			}
+			Icon->Pal[chans*j + 3] = (trans != NULL && j < num_trans) ? trans[j] : 255;
 		}
 
 		Icon->AND = NULL;  // Transparency information is obtained from libpng.
@@ -645,7 +577,7 @@ ILboolean ico_readpng_get_image(ICOIMAGE *Icon, ILdouble display_exponent)
 	// Set the individual row_pointers to point at the correct offsets
 	// Needs to be flipped
 	for (i = 0; i < height; i++)
-		row_pointers[height - i - 1] = Icon->Data + i * width * Icon->Head.BitCount / 8;
+		row_pointers[height - i - 1] = Icon->Data + i * width * (Icon->Head.BitCount / 8);
 		//row_pointers[i] = Icon->Data + i * width * Icon->Head.BitCount / 8;
 
 
-- 
2.43.0


From 3e76e552503bbcde0bed60878dbe749fc398eb2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:52 +0000
Subject: [PATCH 035/115] fix: ILBM loader bounds its chunks, planes and
 palette, keeps the real width

---
 DevIL/src-IL/src/il_ilbm.cpp | 123 +++++++++++++++++++----------------
 1 file changed, 66 insertions(+), 57 deletions(-)

diff --git a/DevIL/src-IL/src/il_ilbm.cpp b/DevIL/src-IL/src/il_ilbm.cpp
index cdbf73f..3999f7f 100644
--- a/DevIL/src-IL/src/il_ilbm.cpp
+++ b/DevIL/src-IL/src/il_ilbm.cpp
@@ -252,6 +252,7 @@ static ILboolean load_ilbm(void)
     Uint32      i, j, bytesperline, nbplanes, plane, h;
     Uint32      remainingbytes;
     Uint32      width;
+    Uint32      nbmask;
     BMHD          bmhd;
     char        *error;
     Uint8       flagHAM,flagEHB;
@@ -302,6 +303,8 @@ static ILboolean load_ilbm(void)
     nbcolors = 0;
 
     memset( &bmhd, 0, sizeof( BMHD ) );
+    memset( colormap, 0, sizeof( colormap ) );
+    memset( scratch_pal, 0, sizeof( scratch_pal ) );
     flagHAM = 0;
     flagEHB = 0;
 
@@ -325,7 +328,7 @@ static ILboolean load_ilbm(void)
 
         if ( !memcmp( id, "BMHD", 4 ) ) /* Bitmap header */
         {
-            if ( !SDL_RWread( src, &bmhd, sizeof( BMHD ), 1 ) )
+            if ( size < sizeof( BMHD ) || !SDL_RWread( src, &bmhd, sizeof( BMHD ), 1 ) )
             {
                 error=(char*)"error reading BMHD chunk";
                 goto done;
@@ -344,26 +347,27 @@ static ILboolean load_ilbm(void)
 
         if ( !memcmp( id, "CMAP", 4 ) ) /* palette ( Color Map ) */
         {
-            if ( !SDL_RWread( src, &colormap, size, 1 ) )
+            /* Only the first MAXCOLORS entries can be used */
+            bytesloaded = size < sizeof( colormap ) ? size : (Uint32)sizeof( colormap );
+            if ( bytesloaded && !SDL_RWread( src, &colormap, bytesloaded, 1 ) )
             {
                 error=(char*)"error reading CMAP chunk";
                 goto done;
             }
 
-            bytesloaded = size;
-            nbcolors = size / 3;
+            nbcolors = bytesloaded / 3;
         }
 
         if ( !memcmp( id, "CAMG", 4 ) ) /* Amiga ViewMode  */
         {
             Uint32 viewmodes;
-            if ( !SDL_RWread( src, &viewmodes, sizeof(viewmodes), 1 ) )
+            if ( size < sizeof(viewmodes) || !SDL_RWread( src, &viewmodes, sizeof(viewmodes), 1 ) )
             {
                 error=(char*)"error reading CAMG chunk";
                 goto done;
             }
 
-            bytesloaded = size;
+            bytesloaded = sizeof(viewmodes);
             viewmodes = SDL_SwapBE32( viewmodes );
             if ( viewmodes & 0x0800 )
                 flagHAM = 1;
@@ -373,6 +377,12 @@ static ILboolean load_ilbm(void)
 
         if ( memcmp( id, "BODY", 4 ) )
         {
+            if ( size > 0x7FFFFFF0 )    /* would seek backwards */
+            {
+                ilSetError(IL_ILLEGAL_FILE_VALUE);
+                error=(char*)"chunk size too big";
+                goto done;
+            }
             if ( size & 1 ) ++size;     /* padding ! */
             size -= bytesloaded;
             /* skip the remaining bytes of this chunk */
@@ -386,6 +396,15 @@ static ILboolean load_ilbm(void)
 
     bytesperline = ( ( bmhd.w + 15 ) / 16 ) * 2;
 
+    if ( bmhd.w == 0 || bmhd.h == 0 || bmhd.planes == 0 ||
+        ( bmhd.planes > 8 && ( bmhd.planes != 24 || pbm ) ) ||
+        ( flagHAM && ( pbm || ( bmhd.planes != 6 && bmhd.planes != 8 ) ) ) )
+    {
+        ilSetError(IL_ILLEGAL_FILE_VALUE);
+        error=(char*)"unsupported bitmap header";
+        goto done;
+    }
+
     nbplanes = bmhd.planes;
 
     if ( pbm )                         /* File format : 'Packed Bitmap' */
@@ -394,13 +413,14 @@ static ILboolean load_ilbm(void)
         nbplanes = 1;
     }
 
-    if ( bmhd.mask & 1 ) ++nbplanes;   /* There is a mask ( 'stencil' ) */
+    /* There is a mask ( 'stencil' ), which does not take part in the colours */
+    nbmask = ( bmhd.mask == 1 ) ? 1 : 0;
 
     /* Allocate memory for a temporary buffer ( used for
            decompression/deinterleaving ) */
 
 	//@TODO: Why do we have a malloc here instead of ialloc?
-    if ( ( MiniBuf = (ILubyte*)malloc( bytesperline * nbplanes ) ) == NULL )
+    if ( ( MiniBuf = (ILubyte*)malloc( bytesperline * ( nbplanes + nbmask ) ) ) == NULL )
     {
         ilSetError( IL_OUT_OF_MEMORY );
         error=(char*)"not enough memory for temporary buffer";
@@ -412,8 +432,11 @@ static ILboolean load_ilbm(void)
     } else {
         format = IL_COLOUR_INDEX;
     }
-    if( !ilTexImage( width, bmhd.h, 1, (format==IL_COLOUR_INDEX)?1:3, format, IL_UNSIGNED_BYTE, NULL ) )
+    if( !ilTexImage( bmhd.w, bmhd.h, 1, (format==IL_COLOUR_INDEX)?1:3, format, IL_UNSIGNED_BYTE, NULL ) )
+    {
+        error=(char*)"could not create the image";
         goto done;
+    }
 	iCurImage->Origin = IL_ORIGIN_UPPER_LEFT;
 
 #if 0 /*  No transparent colour support in DevIL? (TODO: confirm) */
@@ -424,9 +447,15 @@ static ILboolean load_ilbm(void)
     /* Update palette informations */
 
     /* There is no palette in 24 bits ILBM file */
-    if ( nbcolors>0 && flagHAM==0 )
+    if ( format==IL_COLOUR_INDEX )
     {
-        int nbrcolorsfinal = 1 << nbplanes;
+        int nbrcolorsfinal = 1 << bmhd.planes;
+        if ( nbcolors==0 )             /* No palette at all: shades of grey */
+        {
+            nbcolors = nbrcolorsfinal;
+            for ( i=0; i<nbcolors; i++ )
+                memset( &colormap[i*3], i * 255 / ( nbcolors - 1 ), 3 );
+        }
         ptr = &colormap[0];
 
         for ( i=0; i<nbcolors; i++ )
@@ -454,10 +483,6 @@ static ILboolean load_ilbm(void)
         }
 
         /* If nbcolors < 2^nbplanes, repeat the colormap */
-        /* This happens when pictures have a stencil mask */
-        if ( nbrcolorsfinal > (1<<bmhd.planes) ) {
-            nbrcolorsfinal = (1<<bmhd.planes);
-        }
         for ( i=nbcolors; i < (Uint32)nbrcolorsfinal; i++ )
         {
             scratch_pal[i].r = scratch_pal[i%nbcolors].r;
@@ -465,8 +490,12 @@ static ILboolean load_ilbm(void)
             scratch_pal[i].b = scratch_pal[i%nbcolors].b;
         }
 
-        if ( !pbm )
-            ilRegisterPal( scratch_pal, 3*nbrcolorsfinal, IL_PAL_RGB24 );
+        ilRegisterPal( scratch_pal, 3*nbrcolorsfinal, IL_PAL_RGB24 );
+        if ( iCurImage->Pal.Palette == NULL )
+        {
+            error=(char*)"not enough memory for the palette";
+            goto done;
+        }
 
     }
 
@@ -476,7 +505,7 @@ static ILboolean load_ilbm(void)
     {
         /* uncompress the datas of each planes */
 
-        for ( plane=0; plane < nbplanes; plane++ )
+        for ( plane=0; plane < nbplanes + nbmask; plane++ )
         {
             ptr = MiniBuf + ( plane * bytesperline );
 
@@ -537,51 +566,39 @@ static ILboolean load_ilbm(void)
         /* One line has been read, store it ! */
 
         ptr = ilGetData();
-        if ( nbplanes==24 || flagHAM==1 )
-            ptr += h * width * 3;
-        else
-            ptr += h * width;
+        ptr += h * iCurImage->Bps;
 
         if ( pbm )                 /* File format : 'Packed Bitmap' */
         {
-           memcpy( ptr, MiniBuf, width );
+           memcpy( ptr, MiniBuf, bmhd.w );
         }
         else        /* We have to un-interlace the bits ! */
         {
-            if ( nbplanes!=24 && flagHAM==0 )
+            if ( format==IL_COLOUR_INDEX )
             {
-                size = ( width + 7 ) / 8;
-
-                for ( i=0; i < size; i++ )
+                for ( i=0; i < bmhd.w; i++ )
                 {
-                    memset( ptr, 0, 8 );
-
+                    color = 0;
+                    msk = 0x80 >> ( i & 7 );
                     for ( plane=0; plane < nbplanes; plane++ )
                     {
-                        color = *( MiniBuf + i + ( plane * bytesperline ) );
-                        msk = 0x80;
-
-                        for ( j=0; j<8; j++ )
-                        {
-                            if ( ( plane + j ) <= 7 ) ptr[j] |= (Uint8)( color & msk ) >> ( 7 - plane - j );
-                            else                        ptr[j] |= (Uint8)( color & msk ) << ( plane + j - 7 );
-
-                            msk >>= 1;
-                        }
+                        if ( MiniBuf[ plane * bytesperline + i / 8 ] & msk )
+                            color |= 1 << plane;
                     }
-                    ptr += 8;
+                    ptr[i] = color;
                 }
             }
             else
             {
-                Uint32 finalcolor = 0;
-                size = ( width + 7 ) / 8;
+                /* HAM lines start with the background colour */
+                Uint32 finalcolor = flagHAM ? colormap[0] + (colormap[1]<<8) + (colormap[2]<<16) : 0;
+                size = bytesperline;
                 /* 24 bitplanes ILBM : R0...R7,G0...G7,B0...B7 */
                 /* or HAM (6 bitplanes) or HAM8 (8 bitplanes) modes */
                 for ( i=0; i<width; i=i+8 )
                 {
                     Uint8 maskBit = 0x80;
-                    for ( j=0; j<8; j++ )
+                    for ( j=0; j<8 && i+j<bmhd.w; j++ )
                     {
                         Uint32 pixelcolor = 0;
                         Uint32 maskColor = 1;
@@ -597,7 +614,9 @@ static ILboolean load_ilbm(void)
                         /* HAM8 : 18 bits RGB image (6 bits per color component) */
                         if ( flagHAM )
                         {
-                            switch( pixelcolor>>(nbplanes-2) )
+                            Uint32 control = pixelcolor>>(nbplanes-2);
+                            pixelcolor &= (1<<(nbplanes-2))-1;
+                            switch( control )
                             {
                                 case 0: /* take direct color from palette */
                                     finalcolor = colormap[ pixelcolor*3 ] + (colormap[ pixelcolor*3+1 ]<<8) + (colormap[ pixelcolor*3+2 ]<<16);
@@ -620,19 +639,9 @@ static ILboolean load_ilbm(void)
                         {
                             finalcolor = pixelcolor;
                         }
-#if defined( __LITTLE_ENDIAN__ )
-                        {
-                            *ptr++ = (Uint8)(finalcolor>>16);
-                            *ptr++ = (Uint8)(finalcolor>>8);
-                            *ptr++ = (Uint8)(finalcolor);
-                        }
-#else
-                        {
-                            *ptr++ = (Uint8)(finalcolor);
-                            *ptr++ = (Uint8)(finalcolor>>8);
-                            *ptr++ = (Uint8)(finalcolor>>16);
-                        }
-#endif
+                        *ptr++ = (Uint8)(finalcolor>>16);
+                        *ptr++ = (Uint8)(finalcolor>>8);
+                        *ptr++ = (Uint8)(finalcolor);
                         maskBit = maskBit>>1;
                     }
                 }
-- 
2.43.0


From d390bae319391974c7c985d3832fb5764eb9450c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:52 +0000
Subject: [PATCH 036/115] fix: JPEG reading ends at the end of the data, saving
 reports libjpeg errors

---
 DevIL/src-IL/src/il_jpeg.cpp | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/DevIL/src-IL/src/il_jpeg.cpp b/DevIL/src-IL/src/il_jpeg.cpp
index 4cc1648..b951ff0 100644
--- a/DevIL/src-IL/src/il_jpeg.cpp
+++ b/DevIL/src-IL/src/il_jpeg.cpp
@@ -45,6 +45,9 @@
 
 #include "il_jpeg.h"
 #include <setjmp.h>
+#ifndef IL_USE_IJL
+#include <jerror.h>
+#endif
 
 
 #if (defined(_WIN32) || defined(_WIN64)) && defined(IL_USE_PRAGMA_LIBS)
@@ -237,15 +240,13 @@ fill_input_buffer (j_decompress_ptr cinfo)
 
 	if (nbytes <= 0) {
 		if (src->start_of_file) {  // Treat empty input file as fatal error
-			//ERREXIT(cinfo, JERR_INPUT_EMPTY);
-			jpgErrorOccured = IL_TRUE;
+			ERREXIT(cinfo, JERR_INPUT_EMPTY);
 		}
 		//WARNMS(cinfo, JWRN_JPEG_EOF);
 		// Insert a fake EOI marker
 		src->buffer[0] = (JOCTET) 0xFF;
 		src->buffer[1] = (JOCTET) JPEG_EOI;
 		nbytes = 2;
-		return (boolean)IL_FALSE;
 	}
 	if (nbytes < INPUT_BUF_SIZE) {
 		ilGetError();  // Gets rid of the IL_FILE_READ_ERROR.
@@ -482,8 +483,8 @@ ILboolean iSaveJpegInternal()
 	struct		jpeg_compress_struct JpegInfo;
 	struct		jpeg_error_mgr Error;
 	JSAMPROW	row_pointer[1];
-	ILimage		*TempImage;
-	ILubyte		*TempData;
+	ILimage		* volatile TempImage;
+	ILubyte		* volatile TempData;
 	ILenum		Type = 0;
 
 	if (iCurImage == NULL) {
@@ -520,6 +521,15 @@ ILboolean iSaveJpegInternal()
 
 
 	JpegInfo.err = jpeg_std_error(&Error);
+	Error.error_exit = iJpegErrorExit;  // The default one ends the program.
+	Error.output_message = OutputMsg;
+	if (setjmp(JpegJumpBuffer) != 0) {
+		if (TempImage->Origin == IL_ORIGIN_LOWER_LEFT)
+			ifree(TempData);
+		if (TempImage != iCurImage)
+			ilCloseImage(TempImage);
+		return IL_FALSE;
+	}
 	// Now we can initialize the JPEG compression object.
 	jpeg_create_compress(&JpegInfo);
 
@@ -888,8 +898,8 @@ ILboolean ilLoadFromJpegStruct(void *_JpegInfo)
 			iCurImage->Format = IL_RGBA;
 			break;
 		default:
-			//@TODO: Anyway to get here?  Need to error out or something...
-			break;
+			ilSetError(IL_FORMAT_NOT_SUPPORTED);
+			return IL_FALSE;
 	}
 
 	TempPtr[0] = iCurImage->Data;
-- 
2.43.0


From ceb241bf759edb4e29d4339e73449b8bb6ff59f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:59 +0000
Subject: [PATCH 037/115] fix: DDS reader takes data sizes from the dimensions
 and checks faces and mipmaps

---
 DevIL/src-IL/src/il_dds.cpp | 283 ++++++++++++++++++------------------
 1 file changed, 140 insertions(+), 143 deletions(-)

diff --git a/DevIL/src-IL/src/il_dds.cpp b/DevIL/src-IL/src/il_dds.cpp
index b0e0aa0..358dba6 100644
--- a/DevIL/src-IL/src/il_dds.cpp
+++ b/DevIL/src-IL/src/il_dds.cpp
@@ -129,8 +129,8 @@ ILboolean iGetDdsHead(DDSHEAD *Header)
 	Header->ddsCaps4 = GetLittleUInt();
 	Header->TextureStage = GetLittleUInt();
 
-	if (Head.Depth == 0)
-		Head.Depth = 1;
+	if (Header->Depth == 0)
+		Header->Depth = 1;
 
 	return IL_TRUE;
 }
@@ -167,6 +167,9 @@ ILboolean iIsValidDds()
 // Internal function used to check if the HEADER is a valid .dds header.
 ILboolean iCheckDds(DDSHEAD *Head)
 {
+	// Sizes are signed from here on.
+	if (Head->Width > 0x7FFFFFFF || Head->Height > 0x7FFFFFFF || Head->Depth > 0x7FFFFFFF)
+		return IL_FALSE;
 	if (strncmp((const char*)Head->Signature, "DDS ", 4))
 		return IL_FALSE;
 	//note that if Size1 is "DDS " this is not a valid dds file according
@@ -311,23 +314,20 @@ ILubyte iCompFormatToChannelCount(ILenum Format)
 
 ILboolean iLoadDdsCubemapInternal(ILuint CompFormat, ILboolean IsDXT10)
 {
-	ILuint	i;
-	ILubyte	Bpp, Channels, Bpc;
-	ILimage *startImage;
+	ILuint	i, NumFaces = 0;
+	ILubyte	Channels, Bpc;
 
 	if (IsDXT10)  //@TODO: Get this working with the DirectX 10 textures
 		return IL_FALSE;
 
 	CompData = NULL;
 
-	Bpp = iCompFormatToBpp(CompFormat);
 	Channels = iCompFormatToChannelCount(CompFormat);
 	Bpc = iCompFormatToBpc(CompFormat);
 	if (CompFormat == PF_LUMINANCE && Head.RGBBitCount == 16 && Head.RBitMask == 0xFFFF) {  //@TODO: This is a HACK.
-		Bpc = 2; Bpp = 2;
+		Bpc = 2;
 	}
 
-	startImage = Image;
 	// Run through cube map possibilities
 	for (i = 0; i < CUBEMAP_SIDES; i++) {
 		// Reset each time
@@ -335,7 +335,7 @@ ILboolean iLoadDdsCubemapInternal(ILuint CompFormat, ILboolean IsDXT10)
 		Height = Head.Height;
 		Depth = Head.Depth;
 		if (Head.ddsCaps2 & CubemapDirections[i]) {
-			if (i != 0) {
+			if (NumFaces != 0) {
 				Image->Faces = ilNewImage(Width, Height, Depth, Channels, Bpc);
 				if (Image->Faces == NULL)
 					return IL_FALSE;
@@ -351,13 +351,13 @@ ILboolean iLoadDdsCubemapInternal(ILuint CompFormat, ILboolean IsDXT10)
 					// DevIL's format autodetection doesn't work for
 					//  float images...correct this.
 					Image->Type = IL_FLOAT;
-					Image->Bpp = Channels;
 				}
 
 				ilBindImage(ilGetCurName()); // Set to parent image first.
 				//ilActiveImage(i); //@TODO: now Image == iCurImage...globals SUCK, fix this!!!
-				ilActiveFace(i);
+				ilActiveFace(NumFaces);
 			}
+			NumFaces++;
 
 			if (!ReadData(CompFormat, IsDXT10))
 				return IL_FALSE;
@@ -396,6 +396,10 @@ ILboolean iLoadDdsCubemapInternal(ILuint CompFormat, ILboolean IsDXT10)
 	}
 
 	ilBindImage(ilGetCurName());  // Set to parent image first.
+	if (NumFaces == 0) {
+		ilSetError(IL_INVALID_FILE_HEADER);
+		return IL_FALSE;
+	}
 	return ilFixImage();
 }
 
@@ -823,59 +827,97 @@ void AdjustVolumeTexture(DDSHEAD *Head, ILuint CompFormat, ILboolean IsDXT10)
 }
 
 
+// Number of bytes that Width * Height * Depth pixels take in the file,
+//  0 if that is nothing or too much.
+static ILuint GetDataSize(ILuint CompFormat, ILboolean IsDXT10)
+{
+	ILdouble	Size = (ILdouble)Width * Height * Depth;
+	ILdouble	Blocks = (ILdouble)((Width + 3) / 4) * ((Height + 3) / 4) * Depth;
+
+	if (IsDXT10) {
+		Size *= 4;
+	}
+	else {
+		switch (CompFormat)
+		{
+			case PF_ARGB:
+			case PF_RGB:
+			case PF_LUMINANCE:
+			case PF_LUMINANCE_ALPHA:
+				//don't use the iCompFormatToBpp() function because this way
+				//argb images with only 8 bits (eg. a1r2g3b2) work as well
+				Size *= Head.RGBBitCount / 8;
+				break;
+
+			case PF_DXT1:
+			case PF_ATI1N:
+				Size = Blocks * 8;
+				break;
+
+			case PF_DXT2:
+			case PF_DXT3:
+			case PF_DXT4:
+			case PF_DXT5:
+			case PF_3DC:
+			case PF_RXGB:
+				Size = Blocks * 16;
+				break;
+
+			case PF_R16F:
+				Size *= 2;
+				break;
+
+			case PF_G16R16F:
+			case PF_R32F:
+				Size *= 4;
+				break;
+
+			case PF_A16B16G16R16:
+			case PF_A16B16G16R16F:
+			case PF_G32R32F:
+				Size *= 8;
+				break;
+
+			case PF_A32B32G32R32F:
+				Size *= 16;
+				break;
+
+			default:
+				return 0;
+		}
+	}
+
+	if (Size > 0x7FFFFFFF)
+		return 0;
+	return (ILuint)Size;
+}
+
+
 // Reads the compressed data
 ILboolean ReadData(ILuint CompFormat, ILboolean IsDXT10)
 {
-	ILuint	Bps;
-	ILint	y, z;
-	ILubyte	*Temp;
-
 	if (CompData) {
 		ifree(CompData);
 		CompData = NULL;
 	}
 
-	if (Head.Flags1 & DDS_LINEARSIZE) {
-		//Head.LinearSize = Head.LinearSize * Depth;
-
-		CompData = (ILubyte*)ialloc(Head.LinearSize);
-		if (CompData == NULL) {
-			return IL_FALSE;
-		}
-
-		if (iread(CompData, 1, Head.LinearSize) != (ILuint)Head.LinearSize) {
-			ifree(CompData);
-			CompData = NULL;
-			return IL_FALSE;
-		}
+	// The sizes in the header are often wrong, so the size that the pixels
+	//  need is used instead.
+	CompSize = GetDataSize(CompFormat, IsDXT10);
+	if (CompSize == 0) {
+		ilSetError(IL_INVALID_FILE_HEADER);
+		return IL_FALSE;
 	}
-	else {
-		if (IsDXT10)
-			Bps = Head.LinearSize;  //@TODO: Head.RGBBitCount is always 0 from the texconv.exe tool?
-		else
-			Bps = Width * Head.RGBBitCount / 8;
-		CompSize = Bps * Height * Depth;
-		if (CompSize == 0) {
-			ilSetError(IL_INVALID_FILE_HEADER);
-			return IL_FALSE;
-		}
 
-		CompData = (ILubyte*)ialloc(CompSize);
-		if (CompData == NULL) {
-			return IL_FALSE;
-		}
+	CompData = (ILubyte*)ialloc(CompSize);
+	if (CompData == NULL) {
+		return IL_FALSE;
+	}
 
-		Temp = CompData;
-		for (z = 0; z < Depth; z++) {
-			for (y = 0; y < Height; y++) {
-				if (iread(Temp, 1, Bps) != Bps) {
-					ifree(CompData);
-					CompData = NULL;
-					return IL_FALSE;
-				}
-				Temp += Bps;
-			}
-		}
+	if (iread(CompData, 1, CompSize) != CompSize) {
+		ifree(CompData);
+		CompData = NULL;
+		return IL_FALSE;
 	}
 
 	return IL_TRUE;
@@ -955,11 +997,12 @@ ILboolean AllocImage(ILuint CompFormat, ILboolean IsDXT10)
 				if (!ilTexImage(Width, Height, Depth, channels, format, IL_UNSIGNED_BYTE, NULL))
 					return IL_FALSE;
 				if (ilGetInteger(IL_KEEP_DXTC_DATA) == IL_TRUE && CompData) {
-					iCurImage->DxtcData = (ILubyte*)ialloc(Head.LinearSize);
+					ifree(iCurImage->DxtcData);
+					iCurImage->DxtcData = (ILubyte*)ialloc(CompSize);
 					if (iCurImage->DxtcData == NULL)
 						return IL_FALSE;
 					iCurImage->DxtcFormat = CompFormat - PF_DXT1 + IL_DXT1;
-					iCurImage->DxtcSize = Head.LinearSize;
+					iCurImage->DxtcSize = CompSize;
 					memcpy(iCurImage->DxtcData, CompData, iCurImage->DxtcSize);
 				}
 				break;
@@ -970,15 +1013,15 @@ ILboolean AllocImage(ILuint CompFormat, ILboolean IsDXT10)
 		switch (CompFormat)
 		{
 			case DXGI_FORMAT_R8G8B8A8_UNORM:
-				if (!ilTexImage(Width, Height, Depth, 4, IL_RGBA, Has16BitComponents ? IL_UNSIGNED_SHORT : IL_UNSIGNED_BYTE, NULL))
+				if (!ilTexImage(Width, Height, Depth, 4, IL_RGBA, IL_UNSIGNED_BYTE, NULL))
 					return IL_FALSE;
 				break;
 			case DXGI_FORMAT_B8G8R8A8_UNORM:
-				if (!ilTexImage(Width, Height, Depth, 4, IL_BGRA, Has16BitComponents ? IL_UNSIGNED_SHORT : IL_UNSIGNED_BYTE, NULL))
+				if (!ilTexImage(Width, Height, Depth, 4, IL_BGRA, IL_UNSIGNED_BYTE, NULL))
 					return IL_FALSE;
 				break;
 			case DXGI_FORMAT_B8G8R8A8_UNORM_SRGB:
-				if (!ilTexImage(Width, Height, Depth, 4, IL_BGRA, Has16BitComponents ? IL_UNSIGNED_SHORT : IL_UNSIGNED_BYTE, NULL))
+				if (!ilTexImage(Width, Height, Depth, 4, IL_BGRA, IL_UNSIGNED_BYTE, NULL))
 					return IL_FALSE;
 				break;
 
@@ -1069,53 +1112,19 @@ ILboolean DdsDecompress(ILuint CompFormat, ILboolean IsDXT10)
 
 ILboolean ReadMipmaps(ILuint CompFormat, ILboolean IsDXT10)
 {
-	ILuint	i, CompFactor=0;
-	ILubyte	Bpp, Channels, Bpc;
-	ILimage	*StartImage, *TempImage;
-	ILuint	LastLinear;
-	ILuint	minW, minH;
+	ILuint	i;
+	ILubyte	Channels, Bpc;
+	ILimage	*StartImage;
 
 	ILboolean isCompressed = IL_FALSE;
 
 	if (IsDXT10)  //@TODO: Add in mipmap support
 		return IL_TRUE;
 
-	Bpp = iCompFormatToBpp(CompFormat);
 	Channels = iCompFormatToChannelCount(CompFormat);
 	Bpc = iCompFormatToBpc(CompFormat);
 	if (CompFormat == PF_LUMINANCE && Head.RGBBitCount == 16 && Head.RBitMask == 0xFFFF) { //HACK
-		Bpc = 2; Bpp = 2;
-	}
-
-	//This doesn't work for images which first mipmap (= the image
-	//itself) has width or height < 4
-	//if (Head.Flags1 & DDS_LINEARSIZE) {
-	//	CompFactor = (Width * Height * Depth * Bpp) / Head.LinearSize;
-	//}
-	switch (CompFormat)
-	{
-		case PF_DXT1:
-			// This is officially 6, we have 8 here because DXT1 may contain alpha.
-			CompFactor = 8;
-			break;
-		case PF_DXT2:
-		case PF_DXT3:
-		case PF_DXT4:
-		case PF_DXT5:
-			CompFactor = 4;
-			break;
-		case PF_RXGB:
-		case PF_3DC:
-			// This is officially 4 for 3dc, but that's bullshit :) There's no
-			//  alpha data in 3dc images.
-			CompFactor = 3;
-			break;
-
-		case PF_ATI1N:
-			CompFactor = 2;
-			break;
-		default:
-			CompFactor = 1;
+		Bpc = 2;
 	}
 
 	StartImage = Image;
@@ -1127,9 +1136,12 @@ ILboolean ReadMipmaps(ILuint CompFormat, ILboolean IsDXT10)
 		Head.MipMapCount = 1;
 	}
 
-	LastLinear = Head.LinearSize;
 	for (i = 0; i < Head.MipMapCount - 1; i++)
 	{
+		// There is nothing smaller than a single pixel.
+		if (Width <= 1 && Height <= 1 && Depth <= 1)
+			break;
+
 		Depth = Depth / 2;
 		Width = Width / 2;
 		Height = Height / 2;
@@ -1147,51 +1159,40 @@ ILboolean ReadMipmaps(ILuint CompFormat, ILboolean IsDXT10)
 		Image = Image->Mipmaps;
 		Image->Origin = IL_ORIGIN_UPPER_LEFT;
 
-		if (Head.Flags1 & DDS_LINEARSIZE) {
-			if (CompFormat == PF_R16F
-				|| CompFormat == PF_G16R16F
-				|| CompFormat == PF_A16B16G16R16F
-				|| CompFormat == PF_R32F
-				|| CompFormat == PF_G32R32F
-				|| CompFormat == PF_A32B32G32R32F) {
-				Head.LinearSize = Width * Height * Depth * Bpp;
-
+		switch (CompFormat)
+		{
+			case PF_R16F:
+			case PF_G16R16F:
+			case PF_A16B16G16R16F:
+			case PF_R32F:
+			case PF_G32R32F:
+			case PF_A32B32G32R32F:
 				//DevIL's format autodetection doesn't work for
 				//float images...correct this
 				Image->Type = IL_FLOAT;
-				Image->Bpp = Channels;
-			}
-			else if (CompFormat == PF_A16B16G16R16)
-				Head.LinearSize = Width * Height * Depth * Bpp;
-			else if (CompFormat != PF_RGB && CompFormat != PF_ARGB
-				&& CompFormat != PF_LUMINANCE
-				&& CompFormat != PF_LUMINANCE_ALPHA) {
-
-				//compressed format
-				minW = (((Width+3)/4))*4;
-				minH = (((Height+3)/4))*4;
-				Head.LinearSize = (minW * minH * Depth * Bpp) / CompFactor;
+				break;
 
+			case PF_DXT1:
+			case PF_DXT2:
+			case PF_DXT3:
+			case PF_DXT4:
+			case PF_DXT5:
+			case PF_ATI1N:
+			case PF_3DC:
+			case PF_RXGB:
 				isCompressed = IL_TRUE;
-			}
-			else {
-				//don't use Bpp to support argb images with less than 32 bits
-				Head.LinearSize = Width * Height * Depth * (Head.RGBBitCount >> 3);
-			}
-		}
-		else {
-			Head.LinearSize >>= 1;
+				break;
 		}
 
 		if (!ReadData(CompFormat, IsDXT10))
 			goto mip_fail;
 
 		if (ilGetInteger(IL_KEEP_DXTC_DATA) == IL_TRUE && isCompressed == IL_TRUE && CompData) {
-			Image->DxtcData = (ILubyte*)ialloc(Head.LinearSize);
+			Image->DxtcData = (ILubyte*)ialloc(CompSize);
 			if (Image->DxtcData == NULL)
-				return IL_FALSE;
+				goto mip_fail;
 			Image->DxtcFormat = CompFormat - PF_DXT1 + IL_DXT1;
-			Image->DxtcSize = Head.LinearSize;
+			Image->DxtcSize = CompSize;
 			memcpy(Image->DxtcData, CompData, Image->DxtcSize);
 		}
 
@@ -1199,20 +1200,13 @@ ILboolean ReadMipmaps(ILuint CompFormat, ILboolean IsDXT10)
 			goto mip_fail;
 	}
 
-	Head.LinearSize = LastLinear;
 	Image = StartImage;
 
 	return IL_TRUE;
 
 mip_fail:
 	Image = StartImage;
-	StartImage = StartImage->Mipmaps;
-	while (StartImage) {
-		TempImage = StartImage;
-		StartImage = StartImage->Mipmaps;
-		ifree(TempImage);
-	}
-
+	ilCloseImage(Image->Mipmaps);
 	Image->Mipmaps = NULL;
 	return IL_FALSE;
 }
@@ -1250,7 +1244,7 @@ void DxtcReadColor(ILushort Data, Color8888* Out)
 
 	Out->r = r << 3 | r >> 2;
 	Out->g = g << 2 | g >> 3;
-	Out->b = b << 3 | r >> 2;
+	Out->b = b << 3 | b >> 2;
 }
 
 
@@ -1351,7 +1345,7 @@ ILboolean DecompressDXT4(ILimage *lImage, ILubyte *lCompData)
 		return IL_FALSE;
 	CorrectPreMult();
 
-	return IL_FALSE;
+	return IL_TRUE;
 }
 
 
@@ -1487,6 +1481,7 @@ ILboolean Decompress3Dc()
 	Temp = CompData;
 	Offset = 0;
 	for (z = 0; z < Depth; z++) {
+		Offset = z * Image->SizeOfPlane;
 		for (y = 0; y < Height; y += 4) {
 			for (x = 0; x < Width; x += 4) {
 				Temp2 = Temp + 8;
@@ -1578,6 +1573,7 @@ ILboolean DecompressAti1n()
 	Temp = CompData;
 	Offset = 0;
 	for (z = 0; z < Depth; z++) {
+		Offset = z * Image->SizeOfPlane;
 		for (y = 0; y < Height; y += 4) {
 			for (x = 0; x < Width; x += 4) {
 				//Read palette
@@ -1905,13 +1901,14 @@ ILboolean DecompressFloat(ILuint lCompFormat)
 
 void CorrectPreMult()
 {
-	ILuint i;
+	ILuint i, j, Value;
 
 	for (i = 0; i < Image->SizeOfData; i += 4) {
 		if (Image->Data[i+3] != 0) {  // Cannot divide by 0.
-			Image->Data[i]   = (ILubyte)(((ILuint)Image->Data[i]   << 8) / Image->Data[i+3]);
-			Image->Data[i+1] = (ILubyte)(((ILuint)Image->Data[i+1] << 8) / Image->Data[i+3]);
-			Image->Data[i+2] = (ILubyte)(((ILuint)Image->Data[i+2] << 8) / Image->Data[i+3]);
+			for (j = 0; j < 3; j++) {
+				Value = Image->Data[i+j] * 255u / Image->Data[i+3];
+				Image->Data[i+j] = (ILubyte)(Value > 255 ? 255 : Value);
+			}
 		}
 	}
 
-- 
2.43.0


From 2d9acc8908d55bbd201616dc9bca7f822adee358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:59 +0000
Subject: [PATCH 038/115] fix: PNG reader reports data that ends early to
 libpng

---
 DevIL/src-IL/src/il_png.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/DevIL/src-IL/src/il_png.cpp b/DevIL/src-IL/src/il_png.cpp
index 5ceb645..8d717fa 100644
--- a/DevIL/src-IL/src/il_png.cpp
+++ b/DevIL/src-IL/src/il_png.cpp
@@ -173,8 +173,9 @@ ILboolean iLoadPngInternal()
 
 static void png_read(png_structp png_ptr, png_bytep data, png_size_t length)
 {
-	(void)png_ptr;
-	iread(data, 1, (ILuint)length);
+	// Without this, a chunk that claims to be huge keeps libpng busy for long.
+	if (iread(data, 1, (ILuint)length) != length)
+		png_error(png_ptr, "read error");
 	return;
 }
 
-- 
2.43.0


From f4ec91d713b30ef48eb3f46b06fb57e465184b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:20 +0000
Subject: [PATCH 039/115] fix: MDL loader creates the images of further
 textures

---
 DevIL/src-IL/src/il_mdl.cpp | 44 +++++++++++++++----------------------
 1 file changed, 18 insertions(+), 26 deletions(-)

diff --git a/DevIL/src-IL/src/il_mdl.cpp b/DevIL/src-IL/src/il_mdl.cpp
index 6e5d81a..2ce5db7 100644
--- a/DevIL/src-IL/src/il_mdl.cpp
+++ b/DevIL/src-IL/src/il_mdl.cpp
@@ -129,8 +129,7 @@ ILboolean iLoadMdlInternal()
 	ILuint		Id, Version, NumTex, TexOff, TexDataOff, Position, ImageNum;
 	ILubyte		*TempPal;
 	TEX_HEAD	TexHead;
-	ILimage		*BaseImage=NULL;
-	ILboolean	BaseCreated = IL_FALSE;
+	ILimage		*Image = NULL;
 
 	if (iCurImage == NULL) {
 		ilSetError(IL_ILLEGAL_OPERATION);
@@ -174,44 +173,37 @@ ILboolean iLoadMdlInternal()
 			return IL_FALSE;
 		}
 
-		if (!BaseCreated) {
-			ilTexImage(TexHead.Width, TexHead.Height, 1, 1, IL_COLOUR_INDEX, IL_UNSIGNED_BYTE, NULL);
-			iCurImage->Origin = IL_ORIGIN_LOWER_LEFT;
-			BaseCreated = IL_TRUE;
-			BaseImage = iCurImage;
-			//iCurImage->NumNext = NumTex - 1;  // Don't count the first image.
+		if (Image == NULL) {
+			if (!ilTexImage(TexHead.Width, TexHead.Height, 1, 1, IL_COLOUR_INDEX, IL_UNSIGNED_BYTE, NULL))
+				return IL_FALSE;
+			Image = iCurImage;
 		}
 		else {
-			//iCurImage->Next = ilNewImage(TexHead.Width, TexHead.Height, 1, 1, 1);
-			iCurImage = iCurImage->Next;
-			iCurImage->Format = IL_COLOUR_INDEX;
-			iCurImage->Type = IL_UNSIGNED_BYTE;
+			Image->Next = ilNewImage(TexHead.Width, TexHead.Height, 1, 1, 1);
+			if (Image->Next == NULL)
+				return IL_FALSE;
+			Image = Image->Next;
+			Image->Format = IL_COLOUR_INDEX;
+			Image->Type = IL_UNSIGNED_BYTE;
 		}
+		Image->Origin = IL_ORIGIN_LOWER_LEFT;
 
 		TempPal	= (ILubyte*)ialloc(768);
-		if (TempPal == NULL) {
-			iCurImage = BaseImage;
+		if (TempPal == NULL)
 			return IL_FALSE;
-		}
-		iCurImage->Pal.Palette = TempPal;
-		iCurImage->Pal.PalSize = 768;
-		iCurImage->Pal.PalType = IL_PAL_RGB24;
+		Image->Pal.Palette = TempPal;
+		Image->Pal.PalSize = 768;
+		Image->Pal.PalType = IL_PAL_RGB24;
 
 		iseek(TexHead.Offset, IL_SEEK_SET);
-		if (iread(iCurImage->Data, TexHead.Width * TexHead.Height, 1) != 1)
+		if (iread(Image->Data, Image->SizeOfData, 1) != 1)
 			return IL_FALSE;
-		if (iread(iCurImage->Pal.Palette, 1, 768) != 768)
+		if (iread(Image->Pal.Palette, 1, 768) != 768)
 			return IL_FALSE;
 
-		if (ilGetBoolean(IL_CONV_PAL) == IL_TRUE) {
-			ilConvertImage(IL_RGB, IL_UNSIGNED_BYTE);
-		}
-
 		iseek(Position, IL_SEEK_SET);
 	}
 
-	iCurImage = BaseImage;
-
 	return ilFixImage();
 }
 
-- 
2.43.0


From 4e9dde8d7506ee764b17282280b372b55f58872d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:20 +0000
Subject: [PATCH 040/115] fix: HDR reader rejects a run at the start of a line

---
 DevIL/src-IL/src/il_hdr.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/DevIL/src-IL/src/il_hdr.cpp b/DevIL/src-IL/src/il_hdr.cpp
index e5b47a2..22022b6 100644
--- a/DevIL/src-IL/src/il_hdr.cpp
+++ b/DevIL/src-IL/src/il_hdr.cpp
@@ -225,7 +225,11 @@ ILboolean iLoadHdrInternal()
 		iPreCache(iCurImage->Width / 8 * iCurImage->Height);
 
 	data = (ILfloat*)iCurImage->Data;
-	scanline = (ILubyte*)ialloc(Header.Width*4);
+	scanline = (ILubyte*)icalloc(Header.Width, 4);
+	if (scanline == NULL) {
+		iUnCache();
+		return IL_FALSE;
+	}
 	for (i = 0; i < Header.Height; ++i) {
 		ReadScanline(scanline, Header.Width);
 
@@ -263,6 +267,7 @@ ILboolean iLoadHdrInternal()
 void ReadScanline(ILubyte *scanline, ILuint w) {
 	ILubyte *runner;
 	ILuint r, g, b, e, read, shift;
+	ILboolean First;
 
 	r = igetc();
 	g = igetc();
@@ -308,23 +313,25 @@ void ReadScanline(ILubyte *scanline, ILuint w) {
 	}
 
 	//if we come here, we are dealing with old-style scanlines
+	First = IL_TRUE;
 	shift = 0;
 	read = 0;
 	runner = scanline;
 	while (read < w) {
-		if (read != 0) {
+		if (!First) {
 			r = igetc();
 			g = igetc();
 			b = igetc();
 			e = igetc();
 		}
+		First = IL_FALSE;
 
 		//if all three mantissas are 1, then this is a rle
 		//count dword
-		if (r == 1 && g == 1 && b == 1) {
+		if (r == 1 && g == 1 && b == 1 && read != 0) {  // There is nothing to repeat at the start.
 			ILuint length = e;
 			ILuint j;
-			for (j = length << shift; j > 0 && read < w; --j) {
+			for (j = shift < 32 ? length << shift : 0; j > 0 && read < w; --j) {
 				memcpy(runner, runner - 4, 4);
 				runner += 4;
 				++read;
-- 
2.43.0


From 677229414ea54b662969549ba39c7ee77058e8c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:20 +0000
Subject: [PATCH 041/115] fix: XPM reader checks its header, line lengths and
 names

---
 DevIL/src-IL/src/il_xpm.cpp | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/DevIL/src-IL/src/il_xpm.cpp b/DevIL/src-IL/src/il_xpm.cpp
index 4b4a3e8..8326290 100644
--- a/DevIL/src-IL/src/il_xpm.cpp
+++ b/DevIL/src-IL/src/il_xpm.cpp
@@ -318,7 +318,8 @@ ILint XpmGetInt(ILubyte *Buffer, ILint Size, ILint *Position)
 	for (i = *Position, j = 0; i < Size; i++) {
 		if (isdigit(Buffer[i])) {
 			IsInNum = IL_TRUE;
-			Buff[j++] = Buffer[i];
+			if (j < (ILint)sizeof(Buff) - 1)
+				Buff[j++] = Buffer[i];
 		}
 		else {
 			if (IsInNum) {
@@ -454,6 +455,8 @@ ILboolean XpmGetColour(ILubyte *Buffer, ILint Size, int Len, XpmPixel* Colours)
 		return IL_FALSE;
 
 	// Get the characters.
+	if (Size - i < Len)
+		return IL_FALSE;
 	for (j = 0; j < Len; ++j) {
 		Name[j] = Buffer[i++];
 	}
@@ -519,7 +522,8 @@ ILboolean XpmGetColour(ILubyte *Buffer, ILint Size, int Len, XpmPixel* Colours)
 		for (j = 0; i < Size; i++) {
 			if (!isalnum(Buffer[i]))
 				break;
-			Buff[j++] = Buffer[i];
+			if (j < (ILint)sizeof(Buff) - 1)
+				Buff[j++] = Buffer[i];
 		}
 		Buff[j] = 0;
 
@@ -580,8 +584,12 @@ ILboolean iLoadXpmInternal()
 	}
 #endif
 
+	if (Width <= 0 || Height <= 0 || NumColours < 0 || CharsPerPixel <= 0) {
+		ilSetError(IL_ILLEGAL_FILE_VALUE);
+		return IL_FALSE;
+	}
 	if (CharsPerPixel > XPM_MAX_CHAR_PER_PIXEL
-		|| Width*CharsPerPixel > BUFFER_SIZE) {
+		|| Width > BUFFER_SIZE / CharsPerPixel) {
 		ilSetError(IL_FORMAT_NOT_SUPPORTED);
 		return IL_FALSE;
 	}
@@ -622,6 +630,15 @@ ILboolean iLoadXpmInternal()
 
 	for (y = 0; y < Height; y++) {
 		Size = XpmGets(Buffer, BUFFER_SIZE);
+		if (Size < 1 + Width * CharsPerPixel) {  // The file ends early or the line is too short.
+			ilSetError(IL_ILLEGAL_FILE_VALUE);
+#ifndef XPM_DONT_USE_HASHTABLE
+			XpmDestroyHashTable(HashTable);
+#else
+			ifree(Colours);
+#endif
+			return IL_FALSE;
+		}
 		for (x = 0; x < Width; x++) {
 #ifndef XPM_DONT_USE_HASHTABLE
 			XpmGetEntry(HashTable, &Buffer[1 + x*CharsPerPixel], CharsPerPixel, &Data[(x << 2)]);
-- 
2.43.0


From 49dfb3c85d7a364f388b96a97f82f864cd779a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:20 +0000
Subject: [PATCH 042/115] fix: ICNS reader bounds its entries

---
 DevIL/src-IL/src/il_icns.cpp | 60 ++++++++++++++++++++++++++++--------
 1 file changed, 47 insertions(+), 13 deletions(-)

diff --git a/DevIL/src-IL/src/il_icns.cpp b/DevIL/src-IL/src/il_icns.cpp
index 89cf47f..e0f45d4 100644
--- a/DevIL/src-IL/src/il_icns.cpp
+++ b/DevIL/src-IL/src/il_icns.cpp
@@ -153,7 +153,8 @@ ILboolean iLoadIcnsInternal()
 		return IL_FALSE;
 	}
 
-	iread(Header.Head, 4, 1);
+	if (iread(Header.Head, 4, 1) != 1)
+		return IL_FALSE;
 	Header.Size = GetBigInt();
 
 	if (strncmp(Header.Head, "icns", 4))  // First 4 bytes have to be 'icns'.
@@ -161,8 +162,13 @@ ILboolean iLoadIcnsInternal()
 
 	while ((ILint)itell() < Header.Size && !ieof())
 	{
-		iread(Entry.ID, 4, 1);
+		if (iread(Entry.ID, 4, 1) != 1)
+			break;
 		Entry.Size = GetBigInt();
+		if (Entry.Size < 8) {  // Includes these 8 bytes
+			ilSetError(IL_ILLEGAL_FILE_VALUE);
+			return IL_FALSE;
+		}
 
 		if (!strncmp(Entry.ID, "it32", 4))  // 128x128 24-bit
 		{
@@ -222,6 +228,11 @@ ILboolean iLoadIcnsInternal()
 		}
 	}
 
+	if (!BaseCreated) {
+		ilSetError(IL_INVALID_FILE_HEADER);
+		return IL_FALSE;
+	}
+
 	return ilFixImage();
 
 icns_error:
@@ -230,7 +241,7 @@ icns_error:
 
 ILboolean iIcnsReadData(ILboolean *BaseCreated, ILboolean IsAlpha, ILint Width, ICNSDATA *Entry, ILimage **Image)
 {
-	ILint		Position = 0, RLEPos = 0, Channel, i;
+	ILint		Position = 0, RLEPos = 0, Channel, i, Count, DataSize = Entry->Size - 8;
 	ILubyte		RLERead, *Data = NULL;
 	ILimage		*TempImage = NULL;
 	ILboolean	ImageAlreadyExists = IL_FALSE;
@@ -252,15 +263,26 @@ ILboolean iIcnsReadData(ILboolean *BaseCreated, ILboolean IsAlpha, ILint Width,
 		}
 	}
 
-	Data = (ILubyte*)ialloc(Entry->Size - 8);
+	if (DataSize == 0) {
+		ilSetError(IL_ILLEGAL_FILE_VALUE);
+		return IL_FALSE;
+	}
+	Data = (ILubyte*)ialloc(DataSize);
 	if (Data == NULL)
 		return IL_FALSE;
+	if (iread(Data, DataSize, 1) != 1) {  // Size includes the header
+		ifree(Data);
+		return IL_FALSE;
+	}
 
 	if (!ImageAlreadyExists)
 	{
 		if (!*BaseCreated)  // Create base image
 		{
-			ilTexImage(Width, Width, 1, 4, IL_RGBA, IL_UNSIGNED_BYTE, NULL);
+			if (!ilTexImage(Width, Width, 1, 4, IL_RGBA, IL_UNSIGNED_BYTE, NULL)) {
+				ifree(Data);
+				return IL_FALSE;
+			}
 			iCurImage->Origin = IL_ORIGIN_UPPER_LEFT;
 			*Image = iCurImage;
 			*BaseCreated = IL_TRUE;
@@ -268,6 +290,10 @@ ILboolean iIcnsReadData(ILboolean *BaseCreated, ILboolean IsAlpha, ILint Width,
 		else  // Create next image in list
 		{
 			(*Image)->Next = ilNewImage(Width, Width, 1, 4, 1);
+			if ((*Image)->Next == NULL) {
+				ifree(Data);
+				return IL_FALSE;
+			}
 			*Image = (*Image)->Next;
 			(*Image)->Format = IL_RGBA;
 			(*Image)->Origin = IL_ORIGIN_UPPER_LEFT;
@@ -278,7 +304,6 @@ ILboolean iIcnsReadData(ILboolean *BaseCreated, ILboolean IsAlpha, ILint Width,
 
 	if (IsAlpha)  // Alpha is never compressed.
 	{
-		iread(Data, Entry->Size - 8, 1);  // Size includes the header
 		if (Entry->Size - 8 != Width * Width)
 		{
 			ifree(Data);
@@ -293,7 +318,6 @@ ILboolean iIcnsReadData(ILboolean *BaseCreated, ILboolean IsAlpha, ILint Width,
 	else if (Width == 256 || Width == 512)  // JPEG2000 encoded - uses JasPer
 	{
 #ifndef IL_NO_JP2
-		iread(Data, Entry->Size - 8, 1);  // Size includes the header
 		if (ilLoadJp2LInternal(Data, Entry->Size - 8, TempImage) == IL_FALSE)
 		{
 			ifree(Data);
@@ -301,13 +325,13 @@ ILboolean iIcnsReadData(ILboolean *BaseCreated, ILboolean IsAlpha, ILint Width,
 			return IL_TRUE;
 		}
 #else  // Cannot handle this size.
+		ifree(Data);
 		ilSetError(IL_LIB_JP2_ERROR);  //@TODO: Handle this better...just skip the data.
 		return IL_FALSE;
 #endif//IL_NO_JP2
 	}
 	else  // RGB data
 	{
-		iread(Data, Entry->Size - 8, 1);  // Size includes the header
 		if (Width == 128)
 			RLEPos += 4;  // There are an extra 4 bytes here of zeros.
 		//@TODO: Should we check to make sure they are all 0?
@@ -329,27 +353,32 @@ ILboolean iIcnsReadData(ILboolean *BaseCreated, ILboolean IsAlpha, ILint Width,
 				Position = 0;
 				while (Position < Width * Width)
 				{
+					if (RLEPos + 2 > DataSize)
+						goto rle_error;
 					RLERead = Data[RLEPos];
 					RLEPos++;
 
 					if (RLERead >= 128)
 					{
-						for (i = 0; i < RLERead - 125 && (Position + i) < Width * Width; i++)
+						Count = RLERead - 125;
+						for (i = 0; i < Count && (Position + i) < Width * Width; i++)
 						{
 							TempImage->Data[Channel + (Position + i) * 4] = Data[RLEPos];
 						}
 						RLEPos++;
-						Position += RLERead - 125;
 					}
 					else
 					{
-						for (i = 0; i < RLERead + 1 && (Position + i) < Width * Width; i++)
+						Count = RLERead + 1;
+						if (Count > DataSize - RLEPos)
+							goto rle_error;
+						for (i = 0; i < Count && (Position + i) < Width * Width; i++)
 						{
 							TempImage->Data[Channel + (Position + i) * 4] = Data[RLEPos + i];
 						}
-						RLEPos += RLERead + 1;
-						Position += RLERead + 1;
+						RLEPos += Count;
 					}
+					Position += Count;
 				}
 			}
 		}
@@ -357,6 +386,11 @@ ILboolean iIcnsReadData(ILboolean *BaseCreated, ILboolean IsAlpha, ILint Width,
 
 	ifree(Data);
 	return IL_TRUE;
+
+rle_error:
+	ifree(Data);
+	ilSetError(IL_ILLEGAL_FILE_VALUE);
+	return IL_FALSE;
 }
 
 #endif//IL_NO_ICNS
-- 
2.43.0


From c529648141ad70b8a6fdfd4446a177a22baf93e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:20 +0000
Subject: [PATCH 043/115] fix: VTF reader does not create more pictures than
 the file can hold

---
 DevIL/src-IL/src/il_vtf.cpp | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/DevIL/src-IL/src/il_vtf.cpp b/DevIL/src-IL/src/il_vtf.cpp
index 7880ff3..49b5079 100644
--- a/DevIL/src-IL/src/il_vtf.cpp
+++ b/DevIL/src-IL/src/il_vtf.cpp
@@ -225,6 +225,8 @@ ILboolean iLoadVtfInternal(void)
 	ILubyte		*CompData = NULL, SwapVal, *Data16Bit, *Temp, NumFaces;
 	VTFHEAD		Head;
 	ILint		i;
+	ILuint		Position;
+	ILdouble	Remaining;
 
 	if (iCurImage == NULL) {
 		ilSetError(IL_ILLEGAL_OPERATION);
@@ -242,6 +244,11 @@ ILboolean iLoadVtfInternal(void)
 		return IL_FALSE;
 	}
 
+	if (Head.MipmapCount > 17) {  // More than the biggest dimension can have
+		ilSetError(IL_ILLEGAL_FILE_VALUE);
+		return IL_FALSE;
+	}
+
 	if (Head.Flags & TEXTUREFLAGS_ENVMAP) {
 		// If we have a spherical map in addition to the 6 sides of the cubemap, FirstFrame's bits
 		//  are all set.  The only place I found out about this was VTFLib.
@@ -361,6 +368,18 @@ ILboolean iLoadVtfInternal(void)
 			return IL_FALSE;
 	}
 
+	// Every picture takes at least half a byte per pixel, so do not even start
+	//  to create more pictures than the file can hold.
+	Position = itell();
+	iseek(0, IL_SEEK_END);
+	Remaining = (ILdouble)itell() - Position;
+	iseek(Position, IL_SEEK_SET);
+	if ((ILdouble)Head.Width * Head.Height * Head.Depth / 2 * Head.Frames * NumFaces > Remaining ||
+		(ILdouble)Head.MipmapCount * Head.Frames * NumFaces > Remaining) {
+		ilSetError(IL_FILE_READ_ERROR);
+		return IL_FALSE;
+	}
+
 	if (!ilTexImage(Head.Width, Head.Height, Head.Depth, Channels, Format, Type, NULL))
 		return IL_FALSE;
 	// The origin should be in the upper left.
@@ -387,12 +406,10 @@ ILboolean iLoadVtfInternal(void)
 	// We want to put the smallest mipmap at the end, but it is first in the file, so we count backwards.
 	for (Mipmap = Head.MipmapCount - 1; Mipmap >= 0; Mipmap--) {
 		// Frames are in the normal order.
-		for (Frame = 0; Frame < Head.Frames; Frame++) {
+		FrameImage = BaseImage;
+		for (Frame = 0; Frame < Head.Frames; Frame++, FrameImage = FrameImage->Next) {
 			// @TODO: Cubemap faces are always in the same order?
 			for (Face = 0; Face < NumFaces; Face++) {
-				FrameImage = BaseImage;
-				for (i = 0; i < Frame; i++)
-					FrameImage = FrameImage->Next;
 				FaceImage = FrameImage;
 				for (i = 0; i < Face; i++)
 					FaceImage = FaceImage->Faces;
-- 
2.43.0


From 71bf4e4275477490d61fa9b27f54bb45f3bcb0c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:45 +0000
Subject: [PATCH 044/115] fix: ROT loader checks the image count and leaks
 nothing on errors

---
 DevIL/src-IL/src/il_rot.cpp | 44 ++++++++++++++++++++-----------------
 1 file changed, 24 insertions(+), 20 deletions(-)

diff --git a/DevIL/src-IL/src/il_rot.cpp b/DevIL/src-IL/src/il_rot.cpp
index c6ec36b..f129d8b 100644
--- a/DevIL/src-IL/src/il_rot.cpp
+++ b/DevIL/src-IL/src/il_rot.cpp
@@ -74,7 +74,7 @@ ILboolean iLoadRotInternal(void)
 {
 	ILubyte		Form[4], FormName[4];
 	ILuint		FormLen, Width, Height, Format, Channels, CompSize;
-	ILuint		MipSize, MipLevel, MipWidth, MipHeight;
+	ILuint		Count, MipSize, MipLevel, MipWidth, MipHeight;
 	ILenum		FormatIL;
 	ILimage		*Image;
 	ILboolean	BaseCreated = IL_FALSE;
@@ -86,10 +86,10 @@ ILboolean iLoadRotInternal(void)
 	}
 
 	// The first entry in the file must be 'FORM', 0x20 in a big endian integer and then 'HEAD'.
-	iread(Form, 1, 4);
+	Count = iread(Form, 1, 4);
 	FormLen = GetBigUInt();
-	iread(FormName, 1, 4);
-	if (strncmp((char*)Form, "FORM", 4) || FormLen != 0x14 || strncmp((char*)FormName, "HEAD", 4)) {
+	Count += iread(FormName, 1, 4);
+	if (Count != 8 || strncmp((char*)Form, "FORM", 4) || FormLen != 0x14 || strncmp((char*)FormName, "HEAD", 4)) {
 		ilSetError(IL_INVALID_FILE_HEADER);
 		return IL_FALSE;
 	}
@@ -116,11 +116,6 @@ ILboolean iLoadRotInternal(void)
 		case ROT_DXT5:  // DXT5
 			Channels = 4;
 			FormatIL = IL_RGBA;
-			// Allocates the maximum needed (the first width/height given in the file).
-			CompSize = ((Width + 3) / 4) * ((Height + 3) / 4) * 16;
-			CompData = (ILubyte*)ialloc(CompSize);
-			if (CompData == NULL)
-				return IL_FALSE;
 			break;
 
 		default:
@@ -128,7 +123,7 @@ ILboolean iLoadRotInternal(void)
 			return IL_FALSE;
 	}
 
-	if (Width == 0 || Height == 0) {
+	if (Width == 0 || Height == 0 || Width > 0xFFFF || Height > 0xFFFF) {
 		ilSetError(IL_INVALID_FILE_HEADER);
 		return IL_FALSE;
 	}
@@ -137,11 +132,11 @@ ILboolean iLoadRotInternal(void)
 	GetLittleUInt();  // Skip this for the moment.  This appears to be the number of channels.
 
 	// Next comes 'FORM', a length and 'MIPS'.
-	iread(Form, 1, 4);
+	Count = iread(Form, 1, 4);
 	FormLen = GetBigUInt();
-	iread(FormName, 1, 4);
+	Count += iread(FormName, 1, 4);
 	//@TODO: Not sure if the FormLen has to be anything specific here.
-	if (strncmp((char*)Form, "FORM", 4) || strncmp((char*)FormName, "MIPS", 4)) {
+	if (Count != 8 || strncmp((char*)Form, "FORM", 4) || strncmp((char*)FormName, "MIPS", 4)) {
 		ilSetError(IL_INVALID_FILE_HEADER);
 		return IL_FALSE;
 	}
@@ -150,11 +145,11 @@ ILboolean iLoadRotInternal(void)
 	Image = iCurImage;
 	do {
 		// Then we have 'FORM' again.
-		iread(Form, 1, 4);
+		Count = iread(Form, 1, 4);
 		// This is the size of the mipmap data.
 		MipSize = GetBigUInt();
-		iread(FormName, 1, 4);
-		if (strncmp((char*)Form, "FORM", 4)) {
+		Count += iread(FormName, 1, 4);
+		if (Count != 8 || strncmp((char*)Form, "FORM", 4)) {
 			if (!BaseCreated) {  // Our file is malformed.
 				ilSetError(IL_INVALID_FILE_HEADER);
 				return IL_FALSE;
@@ -174,7 +169,7 @@ ILboolean iLoadRotInternal(void)
 		MipSize = GetLittleUInt();  // This is the same as the previous size listed -20 (for attributes).
 
 		// Lower level mipmaps cannot be larger than the main image.
-		if (MipWidth > Width || MipHeight > Height || MipSize > CompSize) {
+		if (MipWidth == 0 || MipHeight == 0 || MipWidth > Width || MipHeight > Height) {
 			ilSetError(IL_INVALID_FILE_HEADER);
 			return IL_FALSE;
 		}
@@ -187,6 +182,8 @@ ILboolean iLoadRotInternal(void)
 		}
 		else {
 			Image->Mipmaps = ilNewImageFull(MipWidth, MipHeight, 1, Channels, FormatIL, IL_UNSIGNED_BYTE, NULL);
+			if (Image->Mipmaps == NULL)
+				return IL_FALSE;
 			Image = Image->Mipmaps;
 		}
 
@@ -209,8 +206,10 @@ ILboolean iLoadRotInternal(void)
 					return IL_FALSE;
 
 				// Read in the DXT1 data...
-				if (iread(CompData, CompSize, 1) != 1)
+				if (iread(CompData, CompSize, 1) != 1) {
+					ifree(CompData);
 					return IL_FALSE;
+				}
 				// ...and decompress it.
 				if (!DecompressDXT1(Image, CompData)) {
 					ifree(CompData);
@@ -236,8 +235,10 @@ ILboolean iLoadRotInternal(void)
 					return IL_FALSE;
 
 				// Read in the DXT3 data...
-				if (iread(CompData, MipSize, 1) != 1)
+				if (iread(CompData, MipSize, 1) != 1) {
+					ifree(CompData);
 					return IL_FALSE;
+				}
 				// ...and decompress it.
 				if (!DecompressDXT3(Image, CompData)) {
 					ifree(CompData);
@@ -263,8 +264,10 @@ ILboolean iLoadRotInternal(void)
 					return IL_FALSE;
 
 				// Read in the DXT5 data...
-				if (iread(CompData, MipSize, 1) != 1)
+				if (iread(CompData, MipSize, 1) != 1) {
+					ifree(CompData);
 					return IL_FALSE;
+				}
 				// ...and decompress it.
 				if (!DecompressDXT5(Image, CompData)) {
 					ifree(CompData);
@@ -280,6 +283,7 @@ ILboolean iLoadRotInternal(void)
 				break;
 		}
 		ifree(CompData);  // Free it if it was not saved.
+		CompData = NULL;
 	} while (!ieof());  //@TODO: Is there any other condition that should end this?
 
 	return ilFixImage();
-- 
2.43.0


From 9e129f9a9583d6f64245cab3085d9562e7eaa956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:27 +0000
Subject: [PATCH 045/115] fix: TEXTURE lumps are read past their 48 byte header

---
 DevIL/src-IL/src/il_texture.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/DevIL/src-IL/src/il_texture.cpp b/DevIL/src-IL/src/il_texture.cpp
index 27d0c7a..b20dd45 100644
--- a/DevIL/src-IL/src/il_texture.cpp
+++ b/DevIL/src-IL/src/il_texture.cpp
@@ -37,16 +37,15 @@ ILboolean ilLoadTexture(ILconst_string FileName)
 //! Reads an already-opened TEXTURE file
 ILboolean ilLoadTextureF(ILHANDLE File)
 {
-	ILuint		FirstPos;
 	ILboolean	bRet;
 	
 	iSetInputFile(File);
-	FirstPos = itell();
 	// From http://forums.totalwar.org/vb/showthread.php?t=70886, all that needs to be done
 	//  is to strip out the first 48 bytes, and then it is DDS data.
 	iseek(48, IL_SEEK_CUR);
 	bRet = ilLoadDdsF(File);
-	iseek(FirstPos, IL_SEEK_SET);
+	// ilLoadDdsF leaves the file where the DDS data starts.
+	iseek(-48, IL_SEEK_CUR);
 	
 	return bRet;
 }
@@ -55,11 +54,14 @@ ILboolean ilLoadTextureF(ILHANDLE File)
 //! Reads from a memory "lump" that contains a TEXTURE
 ILboolean ilLoadTextureL(const void *Lump, ILuint Size)
 {
-	iSetInputLump(Lump, Size);
+	if (Lump == NULL || Size < 48) {
+		ilSetError(IL_INVALID_FILE_HEADER);
+		return IL_FALSE;
+	}
+
 	// From http://forums.totalwar.org/vb/showthread.php?t=70886, all that needs to be done
 	//  is to strip out the first 48 bytes, and then it is DDS data.
-	iseek(48, IL_SEEK_CUR);
-	return ilLoadDdsL(Lump, Size);
+	return ilLoadDdsL((const ILubyte*)Lump + 48, Size - 48);
 }
 
 #endif//IL_NO_TEXTURE
-- 
2.43.0


From 87c571cc37034c05a497c8c517f27e995eb21a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:48 +0000
Subject: [PATCH 046/115] fix: PNG, MNG and icon loaders free what they hold,
 MNG reports errors

---
 DevIL/src-IL/src/il_icon.cpp |  3 ++-
 DevIL/src-IL/src/il_mng.cpp  | 21 ++++++++++++++++-----
 DevIL/src-IL/src/il_png.cpp  |  9 ++++++++-
 3 files changed, 26 insertions(+), 7 deletions(-)

diff --git a/DevIL/src-IL/src/il_icon.cpp b/DevIL/src-IL/src/il_icon.cpp
index aa176c3..9e11775 100644
--- a/DevIL/src-IL/src/il_icon.cpp
+++ b/DevIL/src-IL/src/il_icon.cpp
@@ -153,7 +153,8 @@ ILboolean iLoadIconInternal()
 			if (ieof())
 				goto file_read_error;
 
-			if (IconImages[i].Head.Width <= 0 || IconImages[i].Head.Height <= 1 ||
+			// A size of 0 marks PNG data below.
+			if (IconImages[i].Head.Size == 0 || IconImages[i].Head.Width <= 0 || IconImages[i].Head.Height <= 1 ||
 				IconImages[i].Head.Width > 0xFFFF || IconImages[i].Head.Height > 0x1FFFF) {
 				ilSetError(IL_ILLEGAL_FILE_VALUE);
 				goto file_read_error;
diff --git a/DevIL/src-IL/src/il_mng.cpp b/DevIL/src-IL/src/il_mng.cpp
index 7a54801..1c841f9 100644
--- a/DevIL/src-IL/src/il_mng.cpp
+++ b/DevIL/src-IL/src/il_mng.cpp
@@ -132,12 +132,14 @@ mng_bool MNG_DECL mymngprocessheader(mng_handle mng, mng_uint32 width, mng_uint3
 	AlphaDepth = mng_get_alphadepth(mng);
 
 	if (AlphaDepth == 0) {
-		ilTexImage(width, height, 1, 3, IL_BGR, IL_UNSIGNED_BYTE, NULL);
+		if (!ilTexImage(width, height, 1, 3, IL_BGR, IL_UNSIGNED_BYTE, NULL))
+			return MNG_FALSE;
 		iCurImage->Origin = IL_ORIGIN_LOWER_LEFT;
 		mng_set_canvasstyle(mng, MNG_CANVAS_BGR8);
 	}
 	else {  // Use alpha channel
-		ilTexImage(width, height, 1, 4, IL_BGRA, IL_UNSIGNED_BYTE, NULL);
+		if (!ilTexImage(width, height, 1, 4, IL_BGRA, IL_UNSIGNED_BYTE, NULL))
+			return MNG_FALSE;
 		iCurImage->Origin = IL_ORIGIN_LOWER_LEFT;
 		mng_set_canvasstyle(mng, MNG_CANVAS_BGRA8);
 	}
@@ -247,7 +249,8 @@ ILboolean ilLoadMngL(const void *Lump, ILuint Size)
 
 ILboolean iLoadMngInternal()
 {
-	mng_handle mng;
+	mng_handle	mng;
+	mng_retcode	Ret;
 
 	if (iCurImage == NULL) {
 		ilSetError(IL_ILLEGAL_OPERATION);
@@ -274,8 +277,16 @@ ILboolean iLoadMngInternal()
 	mng_setcb_getcanvasline(mng, mymnggetcanvasline);
 	mng_setcb_refresh(mng, mymngrefresh);
 
-	mng_read(mng);
-	mng_display(mng);
+	Ret = mng_read(mng);
+	if (Ret == MNG_NOERROR)
+		Ret = mng_display(mng);
+	mng_cleanup(&mng);
+
+	// The first frame of an animation waits for its timer after being shown.
+	if (Ret != MNG_NOERROR && Ret != MNG_NEEDTIMERWAIT) {
+		ilSetError(IL_LIB_MNG_ERROR);
+		return IL_FALSE;
+	}
 
 	return ilFixImage();
 }
diff --git a/DevIL/src-IL/src/il_png.cpp b/DevIL/src-IL/src/il_png.cpp
index 8d717fa..9dad2ba 100644
--- a/DevIL/src-IL/src/il_png.cpp
+++ b/DevIL/src-IL/src/il_png.cpp
@@ -250,7 +250,7 @@ ILint readpng_init()
 
 ILboolean readpng_get_image(ILdouble display_exponent)
 {
-	png_bytepp	row_pointers = NULL;
+	png_bytepp	volatile row_pointers = NULL;
 	png_uint_32 width, height; // Changed the type to fix AMD64 bit problems, thanks to Eric Werness
 	ILdouble	screen_gamma = 1.0;
 	ILuint		i, channels;
@@ -265,6 +265,7 @@ ILboolean readpng_get_image(ILdouble display_exponent)
 	 * libpng function */
 
 	if (setjmp(png_jmpbuf(png_ptr))) {
+		ifree(row_pointers);
 		png_destroy_read_struct(&png_ptr, &info_ptr, NULL);
 		return IL_FALSE;
 	}
@@ -368,6 +369,12 @@ ILboolean readpng_get_image(ILdouble display_exponent)
 		iCurImage->Pal.PalSize = num_palette * chans;
 
 		iCurImage->Pal.Palette = (ILubyte*)ialloc(iCurImage->Pal.PalSize);
+		if (iCurImage->Pal.Palette == NULL) {
+			iCurImage->Pal.PalSize = 0;
+			iCurImage->Pal.PalType = IL_PAL_NONE;
+			png_destroy_read_struct(&png_ptr, &info_ptr, NULL);
+			return IL_FALSE;
+		}
 
 		for (j = 0; j < num_palette; ++j) {
 			iCurImage->Pal.Palette[chans*j + 0] = palette[j].red;
-- 
2.43.0


From 5e26511e34fd1cc0964c0f4581c6398dab559019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:10 +0000
Subject: [PATCH 047/115] fix: DDS saver leaves the bound image alone, small
 3DC blocks and conversions stay in bounds

---
 DevIL/src-IL/src/il_dds-save.cpp | 138 ++++++++++++++++++-------------
 DevIL/src-IL/src/il_squish.cpp   |   2 +-
 2 files changed, 80 insertions(+), 60 deletions(-)

diff --git a/DevIL/src-IL/src/il_dds-save.cpp b/DevIL/src-IL/src/il_dds-save.cpp
index f17862f..6208805 100644
--- a/DevIL/src-IL/src/il_dds-save.cpp
+++ b/DevIL/src-IL/src/il_dds-save.cpp
@@ -136,46 +136,54 @@ ILuint GetCubemapInfo(ILimage* image, ILint* faces)
 ILboolean iSaveDdsInternal()
 {
 	ILenum	DXTCFormat;
-	ILuint	counter, numMipMaps, image, numFaces, i;
+	ILuint	counter, numMipMaps, numFaces, i;
+	ILint	j;
 	ILubyte	*CurData = NULL;
 	ILint	CubeTable[6] = { 0 };
-	ILuint	CubeFlags;
+	ILuint	CubeFlags, Written;
+	ILimage	*BaseImage = iCurImage, *Image;
 
 	CubeFlags = GetCubemapInfo(iCurImage, CubeTable);
 
-	image = ilGetInteger(IL_CUR_IMAGE);
 	DXTCFormat = iGetInt(IL_DXTC_FORMAT);
-	WriteHeader(iCurImage, DXTCFormat, CubeFlags);
+	if (!WriteHeader(iCurImage, DXTCFormat, CubeFlags))
+		return IL_FALSE;
 
 	if (CubeFlags != 0)
-		numFaces = ilGetInteger(IL_NUM_FACES); // Should always be 5 for now
+		numFaces = 5; // Only complete cubemaps are written.
 	else
 		numFaces = 0;
 
 	numMipMaps = ilGetInteger(IL_NUM_MIPMAPS); //this assumes all faces have same # of mipmaps
 
 	for (i = 0; i <= numFaces; ++i) {
-		for (counter = 0; counter <= numMipMaps; counter++) {
-			ilBindImage(image);
-			ilActiveImage(CubeTable[i]);
-			ilActiveMipmap(counter);
-
-			if (iCurImage->Origin != IL_ORIGIN_UPPER_LEFT) {
-				CurData = iCurImage->Data;
-				iCurImage->Data = iGetFlipped(iCurImage);
-				if (iCurImage->Data == NULL) {
-					iCurImage->Data = CurData;
+		Image = BaseImage;
+		for (j = 0; j < CubeTable[i]; j++)
+			Image = Image->Next;
+
+		for (counter = 0; counter <= numMipMaps; counter++, Image = Image->Mipmaps) {
+			iCurImage = Image;  // The conversions used by Compress work on the current image.
+
+			if (Image->Origin != IL_ORIGIN_UPPER_LEFT) {
+				CurData = Image->Data;
+				Image->Data = iGetFlipped(Image);
+				if (Image->Data == NULL) {
+					Image->Data = CurData;
+					iCurImage = BaseImage;
 					return IL_FALSE;
 				}
 			}
 
-			if (!Compress(iCurImage, DXTCFormat))
-				return IL_FALSE;
+			Written = Compress(Image, DXTCFormat);
 
-			if (iCurImage->Origin != IL_ORIGIN_UPPER_LEFT) {
-				ifree(iCurImage->Data);
-				iCurImage->Data = CurData;
+			if (Image->Origin != IL_ORIGIN_UPPER_LEFT) {
+				ifree(Image->Data);
+				Image->Data = CurData;
 			}
+			iCurImage = BaseImage;
+
+			if (Written == 0)
+				return IL_FALSE;
 		}
 
 	}
@@ -315,6 +323,11 @@ ILuint ILAPIENTRY ilGetDXTCData(void *Buffer, ILuint BufferSize, ILenum DXTCForm
 	ILuint	retVal;
 	ILint	BlockNum;
 
+	if (iCurImage == NULL) {
+		ilSetError(IL_ILLEGAL_OPERATION);
+		return 0;
+	}
+
 	if (Buffer == NULL) {  // Return the number that will be written with a subsequent call.
 		BlockNum = ((iCurImage->Width + 3)/4) * ((iCurImage->Height + 3)/4)
 					* iCurImage->Depth;
@@ -385,7 +398,7 @@ ILushort *CompressTo565(ILimage *Image)
 	ILushort	*Data;
 	ILuint		i, j;
 
-	if ((Image->Type != IL_UNSIGNED_BYTE && Image->Type != IL_BYTE) || Image->Format == IL_COLOUR_INDEX) {
+	if (Image->Type != IL_UNSIGNED_BYTE || Image->Format == IL_COLOUR_INDEX) {
 		TempImage = iConvertImage(iCurImage, IL_BGRA, IL_UNSIGNED_BYTE);  // @TODO: Needs to be BGRA.
 		if (TempImage == NULL)
 			return NULL;
@@ -478,7 +491,7 @@ ILubyte *CompressTo88(ILimage *Image)
 	ILubyte		*Data;
 	ILuint		i, j;
 
-	if ((Image->Type != IL_UNSIGNED_BYTE && Image->Type != IL_BYTE) || Image->Format == IL_COLOUR_INDEX) {
+	if (Image->Type != IL_UNSIGNED_BYTE || Image->Format == IL_COLOUR_INDEX) {
 		TempImage = iConvertImage(iCurImage, IL_BGR, IL_UNSIGNED_BYTE);  // @TODO: Needs to be BGRA.
 		if (TempImage == NULL)
 			return NULL;
@@ -527,10 +540,14 @@ ILubyte *CompressTo88(ILimage *Image)
 
 		case IL_LUMINANCE:
 		case IL_LUMINANCE_ALPHA:
-			for (i = 0, j = 0; i < TempImage->SizeOfData; i++, j += 2) {
-				Data[j  ] = Data[j+1] = 0; //??? Luminance is no normal map format...
+			for (i = 0, j = 0; i < TempImage->SizeOfData; i += TempImage->Bpp, j += 2) {
+				Data[j  ] = Data[j+1] = TempImage->Data[i];
 			}
 			break;
+
+		default:  // IL_ALPHA has no colours.
+			memset(Data, 0, iCurImage->Width * iCurImage->Height * 2 * iCurImage->Depth);
+			break;
 	}
 
 	if (TempImage != Image)
@@ -549,7 +566,7 @@ void CompressToRXGB(ILimage *Image, ILushort** xgb, ILubyte** r)
 	*xgb = NULL;
 	*r = NULL;
 
-	if ((Image->Type != IL_UNSIGNED_BYTE && Image->Type != IL_BYTE) || Image->Format == IL_COLOUR_INDEX) {
+	if (Image->Type != IL_UNSIGNED_BYTE || Image->Format == IL_COLOUR_INDEX) {
 		TempImage = iConvertImage(iCurImage, IL_BGR, IL_UNSIGNED_BYTE);  // @TODO: Needs to be BGRA.
 		if (TempImage == NULL)
 			return;
@@ -619,6 +636,11 @@ void CompressToRXGB(ILimage *Image, ILushort** xgb, ILubyte** r)
 				Data[j] |=  TempImage->Data[i] >> 3;
 			}
 			break;
+
+		default:  // IL_ALPHA has no colours.
+			memset(Data, 0, iCurImage->Width * iCurImage->Height * 2 * iCurImage->Depth);
+			memset(Alpha, 0, iCurImage->Width * iCurImage->Height * iCurImage->Depth);
+			break;
 	}
 
 	if (TempImage != Image)
@@ -671,7 +693,7 @@ ILuint Compress(ILimage *Image, ILenum DXTCFormat)
 	{
 		ILimage *TempImage;
 
-		if (Image->Bpp != 1) {
+		if (Image->Type != IL_UNSIGNED_BYTE || (Image->Format != IL_LUMINANCE && Image->Format != IL_ALPHA)) {
 			TempImage = iConvertImage(iCurImage, IL_LUMINANCE, IL_UNSIGNED_BYTE);
 			if (TempImage == NULL)
 				return 0;
@@ -732,31 +754,24 @@ ILuint Compress(ILimage *Image, ILenum DXTCFormat)
 		if (ilIsEnabled(IL_SQUISH_COMPRESS) && Image->Depth == 1) {  // See if we need to use the nVidia Texture Tools library.
 			if (DXTCFormat == IL_DXT1 || DXTCFormat == IL_DXT1A || DXTCFormat == IL_DXT3 || DXTCFormat == IL_DXT5) {
 				// libsquish needs data as RGBA 32-bit.
+				ILimage *RgbaImage = Image;
 				if (Image->Format != IL_RGBA || Image->Type != IL_UNSIGNED_BYTE) {  // No need to convert if already this format/type.
-					ByteData = (ILubyte*)ilConvertBuffer(Image->SizeOfData, Image->Format, IL_RGBA, Image->Type, IL_UNSIGNED_BYTE, NULL, Image->Data);
-					if (ByteData == NULL)
+					RgbaImage = iConvertImage(Image, IL_RGBA, IL_UNSIGNED_BYTE);
+					if (RgbaImage == NULL)
 						return 0;
 				}
-				else
-					ByteData = Image->Data;
 
 				// Get compressed data here.
-				BlockData = ilSquishCompressDXT(ByteData, Image->Width, Image->Height, 1, DXTCFormat, &DXTCSize);
+				BlockData = ilSquishCompressDXT(RgbaImage->Data, Image->Width, Image->Height, 1, DXTCFormat, &DXTCSize);
+				if (RgbaImage != Image)
+					ilCloseImage(RgbaImage);
 				if (BlockData == NULL)
 					return 0;
 
-				if (iwrite(BlockData, 1, DXTCSize) != DXTCSize) {
-					if (ByteData != Image->Data)
-						ifree(ByteData);
-					ifree(BlockData);
-					return 0;
-				}
-
-				if (ByteData != Image->Data)
-					ifree(ByteData);
+				Count = iwrite(BlockData, 1, DXTCSize);
 				ifree(BlockData);
 
-				return Image->Width * Image->Height * 4;  // Either compresses all or none.
+				return Count == DXTCSize ? Count : 0;  // Either compresses all or none.
 			}
 		}
 #endif//IL_USE_DXTC_SQUISH
@@ -965,12 +980,14 @@ ILboolean Get3DcBlock(ILubyte *Block, ILubyte *Data, ILimage *Image, ILuint XPos
 
 	for (y = 0; y < 4; y++) {
 		for (x = 0; x < 4; x++) {
-			if (x < Image->Width && y < Image->Height)
-                Block[i++] = Data[Offset + 2*x];
-            else
-                Block[i++] = Data[Offset];
+			if (XPos + x < Image->Width && YPos + y < Image->Height)
+				Block[i++] = Data[Offset + 2*x];
+			else
+				Block[i++] = Data[Offset];
 		}
-        Offset += 2*Image->Width;
+		// We do not want to read past the end of the image.
+		if (YPos + y + 1 < Image->Height)
+			Offset += 2*Image->Width;
 	}
 
 	return IL_TRUE;
@@ -1277,32 +1294,35 @@ ILAPI ILubyte* ILAPIENTRY ilCompressDXT(ILubyte *Data, ILuint Width, ILuint Heig
 	}
 #endif//IL_USE_DXTC_SQUISH
 
-	TempImage = (ILimage*)ialloc(sizeof(ILimage));
-	memset(TempImage, 0, sizeof(ILimage));
+	TempImage = (ILimage*)icalloc(1, sizeof(ILimage));
+	if (TempImage == NULL)
+		return NULL;
 	TempImage->Width = Width;
 	TempImage->Height = Height;
 	TempImage->Depth = Depth;
 	TempImage->Bpp = 4;  // RGBA or BGRA
-	TempImage->Format = IL_BGRA;
+	TempImage->Format = IL_RGBA;  // Same as what libsquish is given.
 	TempImage->Bpc = 1;  // Unsigned bytes only
 	TempImage->Type = IL_UNSIGNED_BYTE;
+	TempImage->Bps = Width * TempImage->Bpp;
 	TempImage->SizeOfPlane = TempImage->Bps * Height;
 	TempImage->SizeOfData  = TempImage->SizeOfPlane * Depth;
 	TempImage->Origin = IL_ORIGIN_UPPER_LEFT;
 	TempImage->Data = Data;
 
+	iCurImage = TempImage;  // ilGetDXTCData works on the current image.
+	Buffer = NULL;
 	BuffSize = ilGetDXTCData(NULL, 0, DXTCFormat);
-	if (BuffSize == 0)
-		return NULL;
-	Buffer = (ILubyte*)ialloc(BuffSize);
-	if (Buffer == NULL)
-		return NULL;
-
-	if (ilGetDXTCData(Buffer, BuffSize, DXTCFormat) != BuffSize) {
-		ifree(Buffer);
-		return NULL;
+	if (BuffSize != 0)
+		Buffer = (ILubyte*)ialloc(BuffSize);
+	if (Buffer != NULL) {
+		if (ilGetDXTCData(Buffer, BuffSize, DXTCFormat) != BuffSize) {
+			ifree(Buffer);
+			Buffer = NULL;
+		}
+		else
+			*DXTCSize = BuffSize;
 	}
-	*DXTCSize = BuffSize;
 
 	// Restore backup of iCurImage.
 	iCurImage = CurImage;
diff --git a/DevIL/src-IL/src/il_squish.cpp b/DevIL/src-IL/src/il_squish.cpp
index 20819d5..a5e7f01 100755
--- a/DevIL/src-IL/src/il_squish.cpp
+++ b/DevIL/src-IL/src/il_squish.cpp
@@ -65,7 +65,7 @@ ILAPI ILubyte* ILAPIENTRY ilSquishCompressDXT(ILubyte *Data, ILuint Width, ILuin
 			break;
 		default:  // Does not support DXT2 or DXT4.
 			ilSetError(IL_INVALID_PARAM);
-			break;
+			return NULL;
 	}
 
 	Size = squish::GetStorageRequirements(Width, Height, Flags);
-- 
2.43.0


From 3fab0a82cf288fb83aea3014bdc9c627e82b8087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:10 +0000
Subject: [PATCH 048/115] fix: PIC pictures without alpha use three bytes per
 pixel

---
 DevIL/src-IL/src/il_pic.cpp | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/DevIL/src-IL/src/il_pic.cpp b/DevIL/src-IL/src/il_pic.cpp
index ea0ad58..99d5ca2 100644
--- a/DevIL/src-IL/src/il_pic.cpp
+++ b/DevIL/src-IL/src/il_pic.cpp
@@ -218,11 +218,12 @@ ILboolean iLoadPicInternal()
 		}
 	}
 	else {  // No alpha channel
-		if (!ilTexImage(Header.Width, Header.Height, 1, 3, IL_RGBA, IL_UNSIGNED_BYTE, NULL)) {
+		if (!ilTexImage(Header.Width, Header.Height, 1, 3, IL_RGB, IL_UNSIGNED_BYTE, NULL)) {
 			Read = IL_FALSE;
 			goto finish;  // Have to destroy Channels first.
 		}
 	}
+	memset(iCurImage->Data, 0, iCurImage->SizeOfData);  // Not every channel has to be in the file.
 	iCurImage->Origin = IL_ORIGIN_LOWER_LEFT;
 
 	Read = readScanlines((ILuint*)iCurImage->Data, Header.Width, Header.Height, Channel, Alpha);
@@ -244,15 +245,10 @@ finish:
 
 ILboolean readScanlines(ILuint *image, ILint width, ILint height, CHANNEL *channel, ILuint alpha)
 {
-	ILint	i;
-	ILuint	*scan;
+	ILint	i, bytes = alpha ? 4 : 3;
 
-	(void)alpha;
-	
 	for (i = height - 1; i >= 0; i--) {
-		scan = image + i * width;
-
-		if (!readScanline((ILubyte *)scan, width, channel, alpha ? 4 : 3)) {
+		if (!readScanline((ILubyte*)image + (size_t)i * width * bytes, width, channel, bytes)) {
 			ilSetError(IL_ILLEGAL_FILE_VALUE);
 			return IL_FALSE;
 		}
@@ -290,6 +286,9 @@ ILuint readScanline(ILubyte *scan, ILint width, CHANNEL *channel, ILint bytes)
 				return 0;
 		}
 
+		if (noCol == 0)  // None of the channels that can be read here.
+			return 0;
+
 		switch(channel->Type & 0x0F)
 		{
 			case PIC_UNCOMPRESSED:
@@ -337,8 +336,8 @@ ILboolean channelReadPure(ILubyte *scan, ILint width, ILint noCol, ILint *off, I
 		count = igetc();
 		if (count == IL_EOF)
 			return IL_FALSE;
-		if (count > width)
-			count = width;
+		if (count > i)
+			count = i;
 		i -= count;
 		
 		if (ieof())
@@ -350,7 +349,7 @@ ILboolean channelReadPure(ILubyte *scan, ILint width, ILint noCol, ILint *off, I
 		
 		for (k = 0; k < count; k++, scan += bytes) {
 			for(j = 0; j < noCol; j++)
-				scan[off[j] + k] = col[j];
+				scan[off[j]] = col[j];
 		}
 	}
 	return IL_TRUE;
-- 
2.43.0


From 9decc1d546efb6b99d5842b4900932bdc90a3cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:10 +0000
Subject: [PATCH 049/115] fix: alpha functions handle every type and free their
 copies

---
 DevIL/src-IL/src/il_manip.cpp | 217 +++++++++++++++-------------------
 1 file changed, 98 insertions(+), 119 deletions(-)

diff --git a/DevIL/src-IL/src/il_manip.cpp b/DevIL/src-IL/src/il_manip.cpp
index 83f6a26..869bc44 100644
--- a/DevIL/src-IL/src/il_manip.cpp
+++ b/DevIL/src-IL/src/il_manip.cpp
@@ -887,7 +887,19 @@ ILubyte* ILAPIENTRY ilGetAlpha(ILenum Type)
 		case IL_BGR:
 		case IL_LUMINANCE:
 		case IL_COLOUR_INDEX:  // @TODO: Make IL_COLOUR_INDEX separate.
-			memset(Alpha, 0xFF, Size / TempImage->Bpp * Bpc);
+			// Everything is opaque.
+			for (i = 0; i < Size / TempImage->Bpp; i++) {
+				switch (Type)
+				{
+					case IL_BYTE:           ((ILbyte*)Alpha)[i] = 0x7F;  break;
+					case IL_SHORT:          ((ILshort*)Alpha)[i] = 0x7FFF;  break;
+					case IL_INT:            ((ILint*)Alpha)[i] = 0x7FFFFFFF;  break;
+					case IL_FLOAT:          ((ILfloat*)Alpha)[i] = 1.0f;  break;
+					case IL_DOUBLE:         ((ILdouble*)Alpha)[i] = 1.0;  break;
+					case IL_HALF:           ((ILushort*)Alpha)[i] = 0x3C00;  break;
+					default:                memset(Alpha + i * Bpc, 0xFF, Bpc);
+				}
+			}
 			if (TempImage != iCurImage)
 				ilCloseImage(TempImage);
 			return Alpha;
@@ -896,6 +908,8 @@ ILubyte* ILAPIENTRY ilGetAlpha(ILenum Type)
 	// If our format is alpha, just return a copy.
 	if (TempImage->Format == IL_ALPHA) {
 		memcpy(Alpha, TempImage->Data, TempImage->SizeOfData);
+		if (TempImage != iCurImage)
+			ilCloseImage(TempImage);
 		return Alpha;
 	}
 		
@@ -914,6 +928,7 @@ ILubyte* ILAPIENTRY ilGetAlpha(ILenum Type)
 
 		case IL_SHORT:
 		case IL_UNSIGNED_SHORT:
+		case IL_HALF:
 			AlphaShort = (ILushort*)Alpha;
 			for (i = AlphaOff-1, j = 0; i < Size; i += AlphaOff, j++)
 				AlphaShort[j] = ((ILushort*)TempImage->Data)[i];
@@ -940,168 +955,132 @@ ILubyte* ILAPIENTRY ilGetAlpha(ILenum Type)
 	return Alpha;
 }
 
+// Puts Value into the last channel of every pixel of the current image, of which there are NumChans.
+static void iFillAlpha(ILuint NumChans, ILdouble Value)
+{
+	ILuint i, Size = iCurImage->Width * iCurImage->Height * iCurImage->Depth * iCurImage->Bpp;
+
+	for (i = NumChans - 1; i < Size; i += NumChans) {
+		switch (iCurImage->Type)
+		{
+			case IL_BYTE:
+				((ILbyte*)iCurImage->Data)[i] = (ILbyte)(Value * IL_MAX_BYTE + .5);
+				break;
+			case IL_UNSIGNED_BYTE:
+				iCurImage->Data[i] = (ILubyte)(Value * IL_MAX_UNSIGNED_BYTE + .5);
+				break;
+			case IL_SHORT:
+				((ILshort*)iCurImage->Data)[i] = (ILshort)(Value * IL_MAX_SHORT + .5);
+				break;
+			case IL_UNSIGNED_SHORT:
+				((ILushort*)iCurImage->Data)[i] = (ILushort)(Value * IL_MAX_UNSIGNED_SHORT + .5);
+				break;
+			case IL_INT:
+				((ILint*)iCurImage->Data)[i] = (ILint)(Value * IL_MAX_INT + .5);
+				break;
+			case IL_UNSIGNED_INT:
+				((ILuint*)iCurImage->Data)[i] = (ILuint)(Value * IL_MAX_UNSIGNED_INT + .5);
+				break;
+			case IL_FLOAT:
+				((ILfloat*)iCurImage->Data)[i] = (ILfloat)Value;
+				break;
+			case IL_DOUBLE:
+				((ILdouble*)iCurImage->Data)[i] = Value;
+				break;
+		}
+	}
+}
+
+
 // sets the Alpha value to a specific value for each pixel in the image
 ILboolean ILAPIENTRY ilSetAlpha(ILdouble AlphaValue)
 {
 	ILboolean	ret = IL_TRUE;
-	ILuint		i,Size;
-	ILimage		*Image = iCurImage;
 	ILuint		AlphaOff;
 
-	if (Image == NULL) {
+	if (iCurImage == NULL) {
 		ilSetError(IL_ILLEGAL_OPERATION);
 		return IL_FALSE;
 	}
 
 	AlphaValue = IL_CLAMP(AlphaValue);
 
-	switch (Image->Format)
+	switch (iCurImage->Format)
 	{
 		case IL_RGB:
-			ret = ilConvertImage(IL_RGBA, Image->Type);
+			ret = ilConvertImage(IL_RGBA, iCurImage->Type);
 		case IL_RGBA:
 			AlphaOff = 4;
-		break;
+			break;
 		case IL_BGR:
-			ret = ilConvertImage(IL_BGRA, Image->Type);
+			ret = ilConvertImage(IL_BGRA, iCurImage->Type);
 		case IL_BGRA:
 			AlphaOff = 4;
 			break;
 		case IL_LUMINANCE:
-			ret = ilConvertImage(IL_LUMINANCE_ALPHA, Image->Type);
+			ret = ilConvertImage(IL_LUMINANCE_ALPHA, iCurImage->Type);
 		case IL_LUMINANCE_ALPHA:
 			AlphaOff = 2;
 			break;
 		case IL_ALPHA:
 			AlphaOff = 1;
+			break;
 		case IL_COLOUR_INDEX: //@TODO use palette with alpha
-			ret = ilConvertImage(IL_RGBA, Image->Type);
+			ret = ilConvertImage(IL_RGBA, iCurImage->Type);
 			AlphaOff = 4;
 			break;
+		default:
+			ilSetError(IL_ILLEGAL_OPERATION);
+			return IL_FALSE;
 	}
 	if (ret == IL_FALSE) {
 		// Error has been set by ilConvertImage.
 		return IL_FALSE;
 	}
-	Size = Image->Width * Image->Height * Image->Depth * Image->Bpp;
 
-	switch (iCurImage->Type)
-	{
-		case IL_BYTE: 
-		case IL_UNSIGNED_BYTE: {
-			const ILbyte alpha = (ILubyte)(AlphaValue * IL_MAX_UNSIGNED_BYTE + .5);
-			for (i = AlphaOff-1; i < Size; i += AlphaOff)
-				Image->Data[i] = alpha;
-			break;
-		}
-		case IL_SHORT:
-		case IL_UNSIGNED_SHORT: {
-			const ILushort alpha = (ILushort)(AlphaValue * IL_MAX_UNSIGNED_SHORT + .5);
-			for (i = AlphaOff-1; i < Size; i += AlphaOff)
-				((ILushort*)Image->Data)[i] = alpha;
-			break;
-		}
-		case IL_INT:
-		case IL_UNSIGNED_INT: {
-			const ILushort alpha = (ILushort)(AlphaValue * IL_MAX_UNSIGNED_INT + .5);
-			for (i = AlphaOff-1; i < Size; i += AlphaOff)
-				((ILuint*)Image->Data)[i] = alpha;
-			break;
-		}
-		case IL_FLOAT: {
-			const ILfloat alpha = (ILfloat)AlphaValue;
-			for (i = AlphaOff-1; i < Size; i += AlphaOff)
-				((ILfloat*)Image->Data)[i] = alpha;
-			break;
-		}
-		case IL_DOUBLE: {
-			const ILdouble alpha  = AlphaValue;
-			for (i = AlphaOff-1; i < Size; i += AlphaOff)
-				((ILdouble*)Image->Data)[i] = alpha;
-			break;
-		}
-	}
-	
+	iFillAlpha(AlphaOff, AlphaValue);
+
 	return IL_TRUE;
 }
 
+
+//! Gives an image without alpha an alpha channel of this value; images with alpha are left alone.
 void ILAPIENTRY ilModAlpha(ILdouble AlphaValue)
 {
-    ILuint AlphaOff = 0;
-    ILboolean ret = IL_FALSE;
-    ILuint i,j,Size;
-
-    union {
-        ILubyte alpha_byte;
-        ILushort alpha_short;
-        ILuint alpha_int;
-        ILfloat alpha_float;
-        ILdouble alpha_double;
-    } Alpha;
-
-    
-    if (iCurImage == NULL) {
-        ilSetError(IL_ILLEGAL_OPERATION);
-        return;
-    }
-    
-    switch (iCurImage->Format)
-	{
-            case IL_RGB:
-                ret = ilConvertImage(IL_RGBA,iCurImage->Type);
-                AlphaOff = 4;
-                break;
-            case IL_BGR:
-                ret = ilConvertImage(IL_BGRA,iCurImage->Type);
-                AlphaOff = 4;
-                break;
-            case IL_LUMINANCE:
-                ret = ilConvertImage(IL_LUMINANCE_ALPHA,iCurImage->Type);
-                AlphaOff = 2;
-                break;
-            case IL_COLOUR_INDEX:
-                ret = ilConvertImage(IL_RGBA,iCurImage->Type);
-                AlphaOff = 4;
-                break;
-    }    
-    Size = iCurImage->Width * iCurImage->Height * iCurImage->Depth * iCurImage->Bpp;
-    
-    if (!ret)
+	ILuint		AlphaOff;
+	ILboolean	ret;
+
+	if (iCurImage == NULL) {
+		ilSetError(IL_ILLEGAL_OPERATION);
 		return;
+	}
 
-    switch (iCurImage->Type)
+	AlphaValue = IL_CLAMP(AlphaValue);
+
+	switch (iCurImage->Format)
 	{
-        case IL_BYTE:
-        case IL_UNSIGNED_BYTE:
-            Alpha.alpha_byte = (ILubyte)(AlphaValue * 0x000000FF + .5);
-            for (i = AlphaOff-1, j = 0; i < Size; i += AlphaOff, j++)
-                iCurImage->Data[i] = Alpha.alpha_byte;
-            break;
-        case IL_SHORT:
-        case IL_UNSIGNED_SHORT:
-            Alpha.alpha_short = (ILushort)(AlphaValue * 0x0000FFFF + .5);
-            for (i = AlphaOff-1, j = 0; i < Size; i += AlphaOff, j++)
-                ((ILushort*)iCurImage->Data)[i] = Alpha.alpha_short;
-            break;
-        case IL_INT:
-        case IL_UNSIGNED_INT:
-            Alpha.alpha_int = (ILuint)(AlphaValue * 0xFFFFFFFF + .5);
-            for (i = AlphaOff-1, j = 0; i < Size; i += AlphaOff, j++)
-                ((ILuint*)iCurImage->Data)[i] = Alpha.alpha_int;
-            break;
-        case IL_FLOAT:
-            Alpha.alpha_float = (ILfloat)AlphaValue;
-            for (i = AlphaOff-1, j = 0; i < Size; i += AlphaOff, j++)
-                ((ILfloat*)iCurImage->Data)[i] = Alpha.alpha_float;
-            break;
-        case IL_DOUBLE:
-            Alpha.alpha_double = AlphaValue;
-            for (i = AlphaOff-1, j = 0; i < Size; i += AlphaOff, j++)
-                ((ILdouble*)iCurImage->Data)[i] = Alpha.alpha_double;
-            break;
-    }
+		case IL_RGB:
+			ret = ilConvertImage(IL_RGBA, iCurImage->Type);
+			AlphaOff = 4;
+			break;
+		case IL_BGR:
+			ret = ilConvertImage(IL_BGRA, iCurImage->Type);
+			AlphaOff = 4;
+			break;
+		case IL_LUMINANCE:
+			ret = ilConvertImage(IL_LUMINANCE_ALPHA, iCurImage->Type);
+			AlphaOff = 2;
+			break;
+		case IL_COLOUR_INDEX:
+			ret = ilConvertImage(IL_RGBA, iCurImage->Type);
+			AlphaOff = 4;
+			break;
+		default:
+			return;
+	}
 
-	return;
+	if (ret)
+		iFillAlpha(AlphaOff, AlphaValue);
 }
 
 
-- 
2.43.0


From 4b3494bd00bb83aedf666eb235ad956cdcc7a291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:01 +0000
Subject: [PATCH 050/115] fix: HDR loader reports truncated files instead of
 filling the picture with garbage

---
 DevIL/src-IL/include/il_hdr.h |  2 +-
 DevIL/src-IL/src/il_hdr.cpp   | 48 +++++++++++++++++++++++++----------
 2 files changed, 35 insertions(+), 15 deletions(-)

diff --git a/DevIL/src-IL/include/il_hdr.h b/DevIL/src-IL/include/il_hdr.h
index 2c30b0a..5f22cb0 100644
--- a/DevIL/src-IL/include/il_hdr.h
+++ b/DevIL/src-IL/include/il_hdr.h
@@ -38,6 +38,6 @@ ILboolean ilLoadHdrF(ILHANDLE file);
 ILboolean iLoadHdrInternal();
 ILboolean iSaveHdrInternal();
 
-void ReadScanline(ILubyte *scanline, ILuint w);
+ILboolean ReadScanline(ILubyte *scanline, ILuint w);
 
 #endif//HDR_H
diff --git a/DevIL/src-IL/src/il_hdr.cpp b/DevIL/src-IL/src/il_hdr.cpp
index 22022b6..0996ac9 100644
--- a/DevIL/src-IL/src/il_hdr.cpp
+++ b/DevIL/src-IL/src/il_hdr.cpp
@@ -231,7 +231,12 @@ ILboolean iLoadHdrInternal()
 		return IL_FALSE;
 	}
 	for (i = 0; i < Header.Height; ++i) {
-		ReadScanline(scanline, Header.Width);
+		if (!ReadScanline(scanline, Header.Width)) {
+			iUnCache();
+			ifree(scanline);
+			ilSetError(IL_FILE_READ_ERROR);
+			return IL_FALSE;
+		}
 
 		//convert hdrs internal format to floats
 		for (j = 0; j < 4*Header.Width; j += 4) {
@@ -264,15 +269,19 @@ ILboolean iLoadHdrInternal()
 	return ilFixImage();
 }
 
-void ReadScanline(ILubyte *scanline, ILuint w) {
+//! Reads a scanline, or returns IL_FALSE if the file ends in it.
+ILboolean ReadScanline(ILubyte *scanline, ILuint w) {
 	ILubyte *runner;
+	ILubyte Pixel[4];
 	ILuint r, g, b, e, read, shift;
 	ILboolean First;
 
-	r = igetc();
-	g = igetc();
-	b = igetc();
-	e = igetc();
+	if (iread(Pixel, 1, 4) != 4)
+		return IL_FALSE;
+	r = Pixel[0];
+	g = Pixel[1];
+	b = Pixel[2];
+	e = Pixel[3];
 
 	//check if the scanline is in the new format
 	//if so, e, r, g, g are stored separated and are
@@ -287,12 +296,16 @@ void ReadScanline(ILubyte *scanline, ILuint w) {
 			j = 0;
 			while (j < length) {
 				t = igetc();
+				if (t == (ILuint)IL_EOF)
+					return IL_FALSE;
 				if (t > 128) { //Run?
-					ILubyte val = igetc();
+					ILint val = igetc();
+					if (val == IL_EOF)
+						return IL_FALSE;
 					t &= 127;
 					//copy current byte
 					while (t > 0 && j < length) {
-						*runner = val;
+						*runner = (ILubyte)val;
 						runner += 4;
 						--t;
 						++j;
@@ -301,7 +314,10 @@ void ReadScanline(ILubyte *scanline, ILuint w) {
 				else { //No Run.
 					//read new bytes
 					while (t > 0 && j < length) {
-						*runner = igetc();
+						ILint val = igetc();
+						if (val == IL_EOF)
+							return IL_FALSE;
+						*runner = (ILubyte)val;
 						runner += 4;
 						--t;
 						++j;
@@ -309,7 +325,7 @@ void ReadScanline(ILubyte *scanline, ILuint w) {
 				}
 			}
 		}
-		return; //done decoding a scanline in separated format
+		return IL_TRUE; //done decoding a scanline in separated format
 	}
 
 	//if we come here, we are dealing with old-style scanlines
@@ -319,10 +335,12 @@ void ReadScanline(ILubyte *scanline, ILuint w) {
 	runner = scanline;
 	while (read < w) {
 		if (!First) {
-			r = igetc();
-			g = igetc();
-			b = igetc();
-			e = igetc();
+			if (iread(Pixel, 1, 4) != 4)
+				return IL_FALSE;
+			r = Pixel[0];
+			g = Pixel[1];
+			b = Pixel[2];
+			e = Pixel[3];
 		}
 		First = IL_FALSE;
 
@@ -353,6 +371,8 @@ void ReadScanline(ILubyte *scanline, ILuint w) {
 			++read;
 		}
 	}
+
+	return IL_TRUE;
 }
 
 
-- 
2.43.0


From c647d8dcfbb0781ccfba8c43cbb10348acbbb438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:31 +0000
Subject: [PATCH 051/115] fix: quantisers free what they copied, set all sizes,
 use at most the requested colours and stay inside small pictures

---
 DevIL/src-IL/src/il_neuquant.cpp  | 18 ++++++++++---
 DevIL/src-IL/src/il_quantizer.cpp | 43 +++++++++++++++----------------
 DevIL/src-IL/src/il_wbmp.cpp      |  2 +-
 3 files changed, 36 insertions(+), 27 deletions(-)

diff --git a/DevIL/src-IL/src/il_neuquant.cpp b/DevIL/src-IL/src/il_neuquant.cpp
index c00f4a0..90081c2 100644
--- a/DevIL/src-IL/src/il_neuquant.cpp
+++ b/DevIL/src-IL/src/il_neuquant.cpp
@@ -113,6 +113,8 @@ void initnet(ILubyte *thepic, ILint len, ILint sample)
 	thepicture = thepic;
 	lengthcount = len;
 	samplefac = sample;
+	if (lengthcount < minpicturebytes)  // Too small to leave pixels out
+		samplefac = 1;
 	
 	for (i=0; i<netsizethink; i++) {
 		p = network[i];
@@ -349,6 +351,8 @@ void learn()
 	lim = thepicture + lengthcount;
 	samplepixels = lengthcount/(3*samplefac);
 	delta = samplepixels/ncycles;
+	if (delta == 0)
+		delta = 1;
 	alpha = initalpha;
 	radius = initradius;
 	
@@ -379,7 +383,7 @@ void learn()
 		if (rad) alterneigh(rad,j,b,g,r);   // alter neighbours
 
 		p += step;
-		if (p >= lim) p -= lengthcount;
+		while (p >= lim) p -= lengthcount;  // The picture may be smaller than the step.
 	
 		i++;
 		if (i%delta == 0) {	
@@ -427,17 +431,23 @@ ILimage *iNeuQuant(ILimage *Image, ILuint NumCols)
 		ifree(NewImage);
 		return NULL;
 	}
-	ilCopyImageAttr(NewImage, Image);
+	if (!ilCopyImageAttr(NewImage, Image)) {
+		ilCloseImage(TempImage);
+		ilCloseImage(NewImage);
+		return NULL;
+	}
+	ifree(NewImage->Pal.Palette);  // Copied from the original
 	NewImage->Bpp = 1;
+	NewImage->Bpc = 1;
 	NewImage->Bps = Image->Width;
 	NewImage->SizeOfPlane = NewImage->Bps * Image->Height;
-	NewImage->SizeOfData = NewImage->SizeOfPlane;
+	NewImage->SizeOfData = NewImage->SizeOfPlane * Image->Depth;
 	NewImage->Format = IL_COLOUR_INDEX;
 	NewImage->Type = IL_UNSIGNED_BYTE;
 
 	NewImage->Pal.PalSize = netsizethink * 3;
 	NewImage->Pal.PalType = IL_PAL_BGR24;
-	NewImage->Pal.Palette = (ILubyte*)ialloc(256*3);
+	NewImage->Pal.Palette = (ILubyte*)icalloc(256, 3);
 	if (NewImage->Pal.Palette == NULL) {
 		ilCloseImage(TempImage);
 		ilCloseImage(NewImage);
diff --git a/DevIL/src-IL/src/il_quantizer.cpp b/DevIL/src-IL/src/il_quantizer.cpp
index 0e00572..b4eb6b9 100644
--- a/DevIL/src-IL/src/il_quantizer.cpp
+++ b/DevIL/src-IL/src/il_quantizer.cpp
@@ -433,6 +433,7 @@ ILimage *iQuantizeImage(ILimage *Image, ILuint NumCols)
 
 	if (TempImage == NULL)
 		return NULL;
+	NewImage = NULL;
 
 	buffer = Image->Data;
 	WindW = Width = Image->Width;
@@ -444,24 +445,15 @@ ILimage *iQuantizeImage(ILimage *Image, ILuint NumCols)
 	//color_num = ImagePrecalculate(Image);
 
 	NewData = (ILubyte*)ialloc(Image->Width * Image->Height * Image->Depth);
-	Palette = (ILubyte*)ialloc(3 * num_alloced_colors);
-	if (!NewData || !Palette) {
-		ifree(NewData);
-		ifree(Palette);
-		return NULL;
-	}
+	Palette = (ILubyte*)icalloc(3, num_alloced_colors);
+	if (!NewData || !Palette)
+		goto error_label;
 
 	Ir = (ILubyte*)ialloc(Width * Height * Depth);
 	Ig = (ILubyte*)ialloc(Width * Height * Depth);
 	Ib = (ILubyte*)ialloc(Width * Height * Depth);
-	if (!Ir || !Ig || !Ib) {
-		ifree(Ir);
-		ifree(Ig);
-		ifree(Ib);
-		ifree(NewData);
-		ifree(Palette);
-		return NULL;
-	}
+	if (!Ir || !Ig || !Ib)
+		goto error_label;
 
 	size = Width * Height * Depth;
         
@@ -593,8 +585,10 @@ ILimage *iQuantizeImage(ILimage *Image, ILuint NumCols)
 		}
 		ifree(tag);
 		ifree(Qadd);
+		tag = NULL;
+		Qadd = NULL;
 
-		for (k = 0; k < NumCols; k++) {
+		for (k = 0; (ILint)k < K; k++) {  // There may be less than NumCols.
 			Palette[k * 3]     = lut_b[k];
 			Palette[k * 3 + 1] = lut_g[k];
 			Palette[k * 3 + 2] = lut_r[k];
@@ -607,31 +601,36 @@ ILimage *iQuantizeImage(ILimage *Image, ILuint NumCols)
 		goto error_label;
 	}
 
+	NewImage = (ILimage*)icalloc(sizeof(ILimage), 1);
+	if (NewImage == NULL)
+		goto error_label;
+	if (!ilCopyImageAttr(NewImage, Image))
+		goto error_label;
+
 	ifree(Ig);
 	ifree(Ib);
 	ifree(Ir);
 	ilCloseImage(TempImage);
 
-	NewImage = (ILimage*)icalloc(sizeof(ILimage), 1);
-	if (NewImage == NULL) {
-		return NULL;
-	}
-	ilCopyImageAttr(NewImage, Image);
+	ifree(NewImage->Pal.Palette);  // Copied from the original
 	NewImage->Bpp = 1;
+	NewImage->Bpc = 1;
 	NewImage->Bps = Image->Width;
 	NewImage->SizeOfPlane = NewImage->Bps * Image->Height;
-	NewImage->SizeOfData = NewImage->SizeOfPlane;
+	NewImage->SizeOfData = NewImage->SizeOfPlane * Image->Depth;
 	NewImage->Format = IL_COLOUR_INDEX;
 	NewImage->Type = IL_UNSIGNED_BYTE;
 
 	NewImage->Pal.Palette = Palette;
-	NewImage->Pal.PalSize = 256 * 3;
+	NewImage->Pal.PalSize = K * 3;
 	NewImage->Pal.PalType = IL_PAL_BGR24;
 	NewImage->Data = NewData;
 
 	return NewImage;
 
 error_label:
+	ilCloseImage(NewImage);
+	ilCloseImage(TempImage);
 	ifree(NewData);
 	ifree(Palette);
 	ifree(Ig);
diff --git a/DevIL/src-IL/src/il_wbmp.cpp b/DevIL/src-IL/src/il_wbmp.cpp
index 44094c0..5830bb7 100755
--- a/DevIL/src-IL/src/il_wbmp.cpp
+++ b/DevIL/src-IL/src/il_wbmp.cpp
@@ -253,7 +253,7 @@ ILboolean iSaveWbmpInternal()
 		if (Pal != NULL && PalBpp != 0 && (i + 1) * PalBpp <= TempImage->Pal.PalSize)
 			Light[i] = Pal[i * PalBpp] + Pal[i * PalBpp + 1] + Pal[i * PalBpp + 2];
 		else
-			Light[i] = 0;
+			Light[i] = i == 0 ? 0 : Light[0];  // Only one colour
 	}
 	if (Light[0] == Light[1])
 		White = Light[0] > 3 * 0x7F ? 2 : 3;  // All or none
-- 
2.43.0


From d72edeb31472979259f8ec116e17803beef6f2d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:50 +0000
Subject: [PATCH 052/115] fix: loading does not depend on the way the bytes
 come in or on leftovers in memory

---
 DevIL/src-IL/src/il_doom.cpp   | 14 +++++++-------
 DevIL/src-IL/src/il_endian.cpp | 24 ++++++++++++------------
 DevIL/src-IL/src/il_files.cpp  | 23 +++++++++++++++++++++--
 DevIL/src-IL/src/il_gif.cpp    |  4 ++--
 DevIL/src-IL/src/il_hdr.cpp    |  3 ++-
 DevIL/src-IL/src/il_io.cpp     |  2 +-
 DevIL/src-IL/src/il_pcd.cpp    |  5 ++++-
 DevIL/src-IL/src/il_sun.cpp    | 16 +++++++++-------
 DevIL/src-IL/src/il_tiff.cpp   |  5 ++++-
 DevIL/src-IL/src/il_wal.cpp    |  3 ++-
 10 files changed, 64 insertions(+), 35 deletions(-)

diff --git a/DevIL/src-IL/src/il_doom.cpp b/DevIL/src-IL/src/il_doom.cpp
index c618978..d174f15 100644
--- a/DevIL/src-IL/src/il_doom.cpp
+++ b/DevIL/src-IL/src/il_doom.cpp
@@ -144,9 +144,9 @@ ILboolean iLoadDoomInternal()
 		}
 
 		for (i = 0; i < iCurImage->SizeOfData; i++) {
-			NewData[i * 4] = iCurImage->Pal.Palette[iCurImage->Data[i]];
-			NewData[i * 4] = iCurImage->Pal.Palette[iCurImage->Data[i]];
-			NewData[i * 4] = iCurImage->Pal.Palette[iCurImage->Data[i]];
+			NewData[i * 4] = iCurImage->Pal.Palette[iCurImage->Data[i] * 3];
+			NewData[i * 4 + 1] = iCurImage->Pal.Palette[iCurImage->Data[i] * 3 + 1];
+			NewData[i * 4 + 2] = iCurImage->Pal.Palette[iCurImage->Data[i] * 3 + 2];
 			NewData[i * 4 + 3] = iCurImage->Data[i] != 247 ? 255 : 0;
 		}
 
@@ -185,7 +185,7 @@ ILboolean ilLoadDoomFlat(ILconst_string FileName)
 		return bFlat;
 	}
 
-	bFlat = ilLoadDoomF(FlatFile);
+	bFlat = ilLoadDoomFlatF(FlatFile);
 	icloser(FlatFile);
 
 	return bFlat;
@@ -249,9 +249,9 @@ ILboolean iLoadDoomFlatInternal()
 		}
 
 		for (i = 0; i < iCurImage->SizeOfData; i++) {
-			NewData[i * 4] = iCurImage->Pal.Palette[iCurImage->Data[i]];
-			NewData[i * 4] = iCurImage->Pal.Palette[iCurImage->Data[i]];
-			NewData[i * 4] = iCurImage->Pal.Palette[iCurImage->Data[i]];
+			NewData[i * 4] = iCurImage->Pal.Palette[iCurImage->Data[i] * 3];
+			NewData[i * 4 + 1] = iCurImage->Pal.Palette[iCurImage->Data[i] * 3 + 1];
+			NewData[i * 4 + 2] = iCurImage->Pal.Palette[iCurImage->Data[i] * 3 + 2];
 			NewData[i * 4 + 3] = iCurImage->Data[i] != 247 ? 255 : 0;
 		}
 
diff --git a/DevIL/src-IL/src/il_endian.cpp b/DevIL/src-IL/src/il_endian.cpp
index 60a42f1..0c7ff2a 100644
--- a/DevIL/src-IL/src/il_endian.cpp
+++ b/DevIL/src-IL/src/il_endian.cpp
@@ -85,7 +85,7 @@ void iSwapDouble(ILdouble *d) {
 
 
 ILushort GetLittleUShort() {
-	ILushort s;
+	ILushort s = 0;
 	iread(&s, sizeof(ILushort), 1);
 #ifdef __BIG_ENDIAN__
 	iSwapUShort(&s);
@@ -94,7 +94,7 @@ ILushort GetLittleUShort() {
 }
 
 ILshort GetLittleShort() {
-	ILshort s;
+	ILshort s = 0;
 	iread(&s, sizeof(ILshort), 1);
 #ifdef __BIG_ENDIAN__
 	iSwapShort(&s);
@@ -103,7 +103,7 @@ ILshort GetLittleShort() {
 }
 
 ILuint GetLittleUInt() {
-	ILuint i;
+	ILuint i = 0;
 	iread(&i, sizeof(ILuint), 1);
 #ifdef __BIG_ENDIAN__
 	iSwapUInt(&i);
@@ -112,7 +112,7 @@ ILuint GetLittleUInt() {
 }
 
 ILint GetLittleInt() {
-	ILint i;
+	ILint i = 0;
 	iread(&i, sizeof(ILint), 1);
 #ifdef __BIG_ENDIAN__
 	iSwapInt(&i);
@@ -121,7 +121,7 @@ ILint GetLittleInt() {
 }
 
 ILfloat GetLittleFloat() {
-	ILfloat f;
+	ILfloat f = 0;
 	iread(&f, sizeof(ILfloat), 1);
 #ifdef __BIG_ENDIAN__
 	iSwapFloat(&f);
@@ -130,7 +130,7 @@ ILfloat GetLittleFloat() {
 }
 
 ILdouble GetLittleDouble() {
-	ILdouble d;
+	ILdouble d = 0;
 	iread(&d, sizeof(ILdouble), 1);
 #ifdef __BIG_ENDIAN__
 	iSwapDouble(&d);
@@ -139,7 +139,7 @@ ILdouble GetLittleDouble() {
 }
 
 ILushort GetBigUShort() {
-	ILushort s;
+	ILushort s = 0;
 	iread(&s, sizeof(ILushort), 1);
 #ifdef __LITTLE_ENDIAN__
 	iSwapUShort(&s);
@@ -148,7 +148,7 @@ ILushort GetBigUShort() {
 }
 
 ILshort GetBigShort() {
-	ILshort s;
+	ILshort s = 0;
 	iread(&s, sizeof(ILshort), 1);
 #ifdef __LITTLE_ENDIAN__
 	iSwapShort(&s);
@@ -157,7 +157,7 @@ ILshort GetBigShort() {
 }
 
 ILuint GetBigUInt() {
-	ILuint i;
+	ILuint i = 0;
 	iread(&i, sizeof(ILuint), 1);
 #ifdef __LITTLE_ENDIAN__
 	iSwapUInt(&i);
@@ -166,7 +166,7 @@ ILuint GetBigUInt() {
 }
 
 ILint GetBigInt() {
-	ILint i;
+	ILint i = 0;
 	iread(&i, sizeof(ILint), 1);
 #ifdef __LITTLE_ENDIAN__
 	iSwapInt(&i);
@@ -175,7 +175,7 @@ ILint GetBigInt() {
 }
 
 ILfloat GetBigFloat() {
-	ILfloat f;
+	ILfloat f = 0;
 	iread(&f, sizeof(ILfloat), 1);
 #ifdef __LITTLE_ENDIAN__
 	iSwapFloat(&f);
@@ -184,7 +184,7 @@ ILfloat GetBigFloat() {
 }
 
 ILdouble GetBigDouble() {
-	ILdouble d;
+	ILdouble d = 0;
 	iread(&d, sizeof(ILdouble), 1);
 #ifdef __LITTLE_ENDIAN__
 	iSwapDouble(&d);
diff --git a/DevIL/src-IL/src/il_files.cpp b/DevIL/src-IL/src/il_files.cpp
index c5e4cc2..a677122 100644
--- a/DevIL/src-IL/src/il_files.cpp
+++ b/DevIL/src-IL/src/il_files.cpp
@@ -613,10 +613,29 @@ void iUnCache()
 
 ILint ILAPIENTRY iSeekRFile(ILint Offset, ILuint Mode)
 {
+	ILint Pos;
+
 	iUnCache();
-	if (Mode == IL_SEEK_SET)
+	if (Mode == IL_SEEK_SET) {
+		if (Offset < 0)
+			return -1;
+		if (Offset > (ILint)(INT_MAX - ReadFileStart))  // Behind the end of any file.
+			return SeekRProc(FileRead, 0, IL_SEEK_END);
 		Offset += ReadFileStart;  // This allows us to use IL_SEEK_SET in the middle of a file.
-	return SeekRProc(FileRead, Offset, Mode);
+		return SeekRProc(FileRead, Offset, Mode);
+	}
+	if (Offset >= 0)
+		return SeekRProc(FileRead, Offset, Mode);
+
+	// What lies before the start of the image data does not belong to us.
+	Pos = TellRProc(FileRead);
+	if (SeekRProc(FileRead, Offset, Mode) != 0)
+		return -1;
+	if ((ILuint)TellRProc(FileRead) < ReadFileStart) {
+		SeekRProc(FileRead, Pos, IL_SEEK_SET);
+		return -1;
+	}
+	return 0;
 }
 
 
diff --git a/DevIL/src-IL/src/il_gif.cpp b/DevIL/src-IL/src/il_gif.cpp
index b987c35..67aa269 100644
--- a/DevIL/src-IL/src/il_gif.cpp
+++ b/DevIL/src-IL/src/il_gif.cpp
@@ -489,7 +489,7 @@ ILint get_next_code(void) {
 			pbytes = byte_buff;
 			navail_bytes = igetc();
 
-			if(navail_bytes == IL_EOF) {
+			if(navail_bytes == IL_EOF || navail_bytes == 0) {  // 0 terminates the data.
 				success = IL_FALSE;
 				return ending;
 			}
@@ -515,7 +515,7 @@ ILint get_next_code(void) {
 			pbytes = byte_buff;
 			navail_bytes = igetc();
 
-			if(navail_bytes == IL_EOF) {
+			if(navail_bytes == IL_EOF || navail_bytes == 0) {  // 0 terminates the data.
 				success = IL_FALSE;
 				return ending;
 			}
diff --git a/DevIL/src-IL/src/il_hdr.cpp b/DevIL/src-IL/src/il_hdr.cpp
index 0996ac9..4f055d2 100644
--- a/DevIL/src-IL/src/il_hdr.cpp
+++ b/DevIL/src-IL/src/il_hdr.cpp
@@ -117,7 +117,8 @@ ILboolean iGetHdrHead(HDRHEADER *Header)
 	//"+X" after the following line)
 	
 	// The 2 has to be in the %s format specifier to prevent buffer overruns.
-	sscanf(buff, "%2s %d %2s %d", y, &Header->Height, x, &Header->Width);
+	if (sscanf(buff, "%2s %d %2s %d", y, &Header->Height, x, &Header->Width) != 4)
+		return IL_FALSE;
 
 	return IL_TRUE;
 }
diff --git a/DevIL/src-IL/src/il_io.cpp b/DevIL/src-IL/src/il_io.cpp
index 702e2bb..7d8b0a7 100644
--- a/DevIL/src-IL/src/il_io.cpp
+++ b/DevIL/src-IL/src/il_io.cpp
@@ -1319,7 +1319,7 @@ static ILboolean iLoadFile(ILenum Type, ILconst_string FileName)
 
 		#ifndef IL_NO_PCD
 		case IL_PCD:
-			ilLoadPcd(FileName);
+			bRet = ilLoadPcd(FileName);
 			break;
 		#endif
 
diff --git a/DevIL/src-IL/src/il_pcd.cpp b/DevIL/src-IL/src/il_pcd.cpp
index 3ce4202..e5e994a 100644
--- a/DevIL/src-IL/src/il_pcd.cpp
+++ b/DevIL/src-IL/src/il_pcd.cpp
@@ -119,7 +119,7 @@ ILboolean iLoadPcdInternal()
 	if (iread(&VertOrientation, 1, 1) != 1)
 		return IL_FALSE;
 
-	iseek(-72, IL_SEEK_CUR);  // Can't rewind
+	iseek(-73, IL_SEEK_CUR);  // Can't rewind
 
 	PicNum = iGetInt(IL_PCD_PICNUM);
 
@@ -159,6 +159,9 @@ ILboolean iLoadPcdInternal()
 	}
 
 	if (!ilTexImage(Width, Height, 1, 3, IL_RGB, IL_UNSIGNED_BYTE, NULL)) {
+		ifree(Y1);
+		ifree(Y2);
+		ifree(CbCr);
 		return IL_FALSE;
 	}
 	iCurImage->Origin = IL_ORIGIN_LOWER_LEFT;
diff --git a/DevIL/src-IL/src/il_sun.cpp b/DevIL/src-IL/src/il_sun.cpp
index 960967b..a2510b5 100644
--- a/DevIL/src-IL/src/il_sun.cpp
+++ b/DevIL/src-IL/src/il_sun.cpp
@@ -233,8 +233,8 @@ static ILint iSunGetByte(SUNRLE *Rle)
 }
 
 
-// Reads Length bytes of the image data.
-static ILboolean iSunGetLine(SUNRLE *Rle, ILubyte *Line, ILuint Length)
+// Reads Length bytes of the image data and returns how many there were.
+static ILuint iSunGetLine(SUNRLE *Rle, ILubyte *Line, ILuint Length)
 {
 	ILuint	i;
 	ILint	c;
@@ -242,10 +242,10 @@ static ILboolean iSunGetLine(SUNRLE *Rle, ILubyte *Line, ILuint Length)
 	for (i = 0; i < Length; i++) {
 		c = iSunGetByte(Rle);
 		if (c == IL_EOF)
-			return IL_FALSE;
+			break;
 		Line[i] = (ILubyte)c;
 	}
-	return IL_TRUE;
+	return i;
 }
 
 
@@ -277,7 +277,7 @@ ILboolean iLoadSunInternal(void)
 {
 	SUNHEAD	Header;
 	SUNRLE	Rle;
-	ILuint	i, j, LineLen;
+	ILuint	i, j, LineLen, Used, NumRead;
 	ILubyte	*Line, *Dest;
 	ILenum	Format;
 
@@ -331,6 +331,7 @@ ILboolean iLoadSunInternal(void)
 		ilSetError(IL_INVALID_FILE_HEADER);
 		return IL_FALSE;
 	}
+	Used = LineLen;
 	LineLen += LineLen & 1;
 
 	Line = (ILubyte*)ialloc(LineLen);
@@ -340,9 +341,10 @@ ILboolean iLoadSunInternal(void)
 	Rle.Encoded = (Header.Type == IL_SUN_BYTE_ENC);
 	Rle.Count = 0;
 	for (i = 0; i < iCurImage->Height; i++) {
-		if (!iSunGetLine(&Rle, Line, LineLen)) {
+		NumRead = iSunGetLine(&Rle, Line, LineLen);
+		if (NumRead < LineLen) {
 			// The padding of the last scanline may be missing.
-			if (i + 1 < iCurImage->Height || Header.Depth == 32 || (iCurImage->Bps & 1) == 0) {
+			if (i + 1 < iCurImage->Height || NumRead < Used) {
 				ifree(Line);
 				ilSetError(IL_FILE_READ_ERROR);
 				return IL_FALSE;
diff --git a/DevIL/src-IL/src/il_tiff.cpp b/DevIL/src-IL/src/il_tiff.cpp
index 7e66e93..cc63115 100644
--- a/DevIL/src-IL/src/il_tiff.cpp
+++ b/DevIL/src-IL/src/il_tiff.cpp
@@ -707,7 +707,10 @@ _tiffFileSeekProc(thandle_t fd, toff_t tOff, int whence)
 	if (tOff == 0xFFFFFFFF)
 		return 0xFFFFFFFF;
 
-	iseek((ILint)tOff, whence);
+	if ((ILint64)tOff > 0x7FFFFFFF || (ILint64)tOff < -0x7FFFFFFF)
+		return (toff_t)-1;
+	if (iseek((ILint)tOff, whence) != 0)
+		return (toff_t)-1;
 	return itell();
 	//return tOff;
 }
diff --git a/DevIL/src-IL/src/il_wal.cpp b/DevIL/src-IL/src/il_wal.cpp
index 17a2ae8..b53fb6a 100644
--- a/DevIL/src-IL/src/il_wal.cpp
+++ b/DevIL/src-IL/src/il_wal.cpp
@@ -110,7 +110,8 @@ ILboolean iLoadWalInternal()
 	for (i = 0; i < 4; i++)
 		Header.Offsets[i] = GetLittleUInt();
 
-	iread(Header.AnimName, 1, 32);
+	if (iread(Header.AnimName, 1, 32) != 32)
+		return IL_FALSE;
 	Header.Flags = GetLittleUInt();
 	Header.Contents = GetLittleUInt();
 	Header.Value = GetLittleUInt();
-- 
2.43.0


From c0b467f60ff45b7c939d1b08309dee25d8d80c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:57 +0000
Subject: [PATCH 053/115] fix: HDR saver frees its buffer with the function it
 was allocated with when writing fails

---
 DevIL/src-IL/src/il_hdr.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DevIL/src-IL/src/il_hdr.cpp b/DevIL/src-IL/src/il_hdr.cpp
index 4f055d2..523cd39 100644
--- a/DevIL/src-IL/src/il_hdr.cpp
+++ b/DevIL/src-IL/src/il_hdr.cpp
@@ -649,7 +649,7 @@ ILboolean iSaveHdrInternal()
 		rgbe[2] = TempImage->Width >> 8;
 		rgbe[3] = TempImage->Width & 0xFF;
 		if (iwrite(rgbe, sizeof(rgbe), 1) < 1) {
-			free(buffer);
+			ifree(buffer);
 			if (iCurImage != TempImage)
 				ilCloseImage(TempImage);
 			return IL_FALSE;
-- 
2.43.0


From 9df9c102b70c82b2f3ecfe0d8e23d3ec016a79ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:12 +0000
Subject: [PATCH 054/115] fix: a save that writes nothing because the output is
 full reports an error

---
 DevIL/src-IL/src/il_io.cpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/DevIL/src-IL/src/il_io.cpp b/DevIL/src-IL/src/il_io.cpp
index 7d8b0a7..11f8061 100644
--- a/DevIL/src-IL/src/il_io.cpp
+++ b/DevIL/src-IL/src/il_io.cpp
@@ -2694,7 +2694,7 @@ ILboolean ILAPIENTRY ilSave(ILenum Type, ILconst_string FileName)
 			return IL_FALSE;
 	}
 
-	if (bRet && !iWriteOk()) {  // Something is missing in the file.
+	if (!iWriteOk()) {  // Something is missing in the file.
 		ilSetError(IL_FILE_WRITE_ERROR);
 		return IL_FALSE;
 	}
@@ -2830,9 +2830,6 @@ ILuint ILAPIENTRY ilSaveF(ILenum Type, ILHANDLE File)
 			return 0;
 	}
 
-	if (Ret == 0)
-		return 0;
-
 	if (!iWriteOk()) {  // Something is missing in the file.
 		ilSetError(IL_FILE_WRITE_ERROR);
 		return 0;
@@ -2974,7 +2971,7 @@ ILuint ILAPIENTRY ilSaveL(ILenum Type, void *Lump, ILuint Size)
 			return 0;
 	}
 
-	if (Ret != 0 && !iWriteOk()) {  // The buffer is too small.
+	if (!iWriteOk()) {  // The buffer is too small.
 		ilSetError(IL_FILE_WRITE_ERROR);
 		return 0;
 	}
@@ -3159,7 +3156,7 @@ ILboolean ILAPIENTRY ilSaveImage(ILconst_string FileName)
 	return IL_FALSE;
 
 finish:
-	if (bRet && !iWriteOk()) {  // Something is missing in the file.
+	if (!iWriteOk()) {  // Something is missing in the file.
 		ilSetError(IL_FILE_WRITE_ERROR);
 		bRet = IL_FALSE;
 	}
-- 
2.43.0


From f55ce7b423d08afcfba1495b0512c8952a6542ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:24 +0000
Subject: [PATCH 055/115] fix: ilIsValid accepts SGI files under all extensions
 of the type

---
 DevIL/src-IL/src/il_sgi.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/DevIL/src-IL/src/il_sgi.cpp b/DevIL/src-IL/src/il_sgi.cpp
index a72fb56..7715ee8 100644
--- a/DevIL/src-IL/src/il_sgi.cpp
+++ b/DevIL/src-IL/src/il_sgi.cpp
@@ -25,7 +25,8 @@ ILboolean ilIsValidSgi(ILconst_string FileName)
 	ILHANDLE	SgiFile;
 	ILboolean	bSgi = IL_FALSE;
 
-	if (!iCheckExtension(FileName, IL_TEXT("sgi"))) {
+	if (!iCheckExtension(FileName, IL_TEXT("sgi")) && !iCheckExtension(FileName, IL_TEXT("bw")) &&
+		!iCheckExtension(FileName, IL_TEXT("rgb")) && !iCheckExtension(FileName, IL_TEXT("rgba"))) {
 		ilSetError(IL_INVALID_EXTENSION);
 		return bSgi;
 	}
-- 
2.43.0


From f72f82c67faaef988e06b6c614f7dcb3e6f630e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:44 +0000
Subject: [PATCH 056/115] fix: palette files are read from the file that was
 opened, checked, and saved without changing the image

---
 DevIL/src-IL/include/il_pal.h |   2 +-
 DevIL/src-IL/src/il_pal.cpp   | 368 ++++++++++++++--------------------
 2 files changed, 148 insertions(+), 222 deletions(-)

diff --git a/DevIL/src-IL/include/il_pal.h b/DevIL/src-IL/include/il_pal.h
index 8235326..a43cff7 100644
--- a/DevIL/src-IL/include/il_pal.h
+++ b/DevIL/src-IL/include/il_pal.h
@@ -45,7 +45,7 @@ typedef struct HALOHEAD
 
 ILboolean	ilLoadJascPal(ILconst_string FileName);
 ILboolean	ilSaveJascPal(ILconst_string FileName);
-char		*iFgetw(ILubyte *Buff, ILint MaxLen, FILE *File);
+char		*iFgetw(ILubyte *Buff, ILint MaxLen, ILuint *Left);
 ILboolean	ilLoadHaloPal(ILconst_string FileName);
 ILboolean	ilLoadColPal(ILconst_string FileName);
 ILboolean	ilLoadActPal(ILconst_string FileName);
diff --git a/DevIL/src-IL/src/il_pal.cpp b/DevIL/src-IL/src/il_pal.cpp
index df7675d..65d9435 100644
--- a/DevIL/src-IL/src/il_pal.cpp
+++ b/DevIL/src-IL/src/il_pal.cpp
@@ -21,7 +21,7 @@
 //! Loads a palette from FileName into the current image's palette.
 ILboolean ILAPIENTRY ilLoadPal(ILconst_string FileName)
 {
-	FILE		*f;
+	ILHANDLE	f;
 	ILboolean	IsPsp;
 	char		Head[8];
 
@@ -40,23 +40,19 @@ ILboolean ILAPIENTRY ilLoadPal(ILconst_string FileName)
 		return ilLoadPltPal(FileName);
 	}
 
-#ifndef _UNICODE
-	f = fopen(FileName, "rt");
-#else
-	f = _wfopen(FileName, L"rt");
-#endif//_UNICODE
+	f = iopenr(FileName);
 	if (f == NULL) {
 		ilSetError(IL_COULD_NOT_OPEN_FILE);
 		return IL_FALSE;
 	}
 
-	fread(Head, 1, 8, f);
-	if (!strncmp(Head, "JASC-PAL", 8))
+	iSetInputFile(f);
+	if (iread(Head, 1, 8) == 8 && !strncmp(Head, "JASC-PAL", 8))
 		IsPsp = IL_TRUE;
 	else
 		IsPsp = IL_FALSE;
 
-	fclose(f);
+	icloser(f);
 
 	if (IsPsp)
 		return ilLoadJascPal(FileName);
@@ -64,14 +60,51 @@ ILboolean ILAPIENTRY ilLoadPal(ILconst_string FileName)
 }
 
 
+// Gives the current image a palette of RGB24 entries that has been allocated with ialloc.
+static void iSetLoadedPal(ILubyte *Palette, ILuint PalSize)
+{
+	if (iCurImage->Pal.Palette != NULL)
+		ifree(iCurImage->Pal.Palette);
+	iCurImage->Pal.Palette = Palette;
+	iCurImage->Pal.PalSize = PalSize;
+	iCurImage->Pal.PalType = IL_PAL_RGB24;
+}
+
+
+// Reads PalSize bytes of RGB24 entries and makes them the palette of the current image.
+static ILboolean iReadPal(ILuint PalSize)
+{
+	ILubyte *Palette = (ILubyte*)ialloc(PalSize);
+
+	if (Palette == NULL)
+		return IL_FALSE;
+	if (iread(Palette, 1, PalSize) != PalSize) {
+		ifree(Palette);
+		return IL_FALSE;
+	}
+	iSetLoadedPal(Palette, PalSize);
+	return IL_TRUE;
+}
+
+
+// Number of bytes in the file that is being read, from the present position on.
+static ILuint iPalFileSize()
+{
+	ILuint Pos = itell(), End;
+
+	iseek(0, IL_SEEK_END);
+	End = itell();
+	iseek(Pos, IL_SEEK_SET);
+	return End > Pos ? End - Pos : 0;
+}
+
+
 //! Loads a Paint Shop Pro formatted palette (.pal) file.
 ILboolean ilLoadJascPal(ILconst_string FileName)
 {
-	FILE *PalFile;
-	ILuint NumColours, i, c;
-	ILubyte Buff[BUFFLEN];
-	ILboolean Error = IL_FALSE;
-	ILpal *Pal = &iCurImage->Pal;
+	ILHANDLE PalFile;
+	ILuint NumColours, i, Size;
+	ILubyte Buff[BUFFLEN], *Palette;
 
 	if (!iCheckExtension(FileName, IL_TEXT("pal"))) {
 		ilSetError(IL_INVALID_EXTENSION);
@@ -83,98 +116,77 @@ ILboolean ilLoadJascPal(ILconst_string FileName)
 		return IL_FALSE;
 	}
 
-#ifndef _UNICODE
-	PalFile = fopen(FileName, "rt");
-#else
-	PalFile = _wfopen(FileName, L"rt");
-#endif//_UNICODE
+	PalFile = iopenr(FileName);
 	if (PalFile == NULL) {
 		ilSetError(IL_COULD_NOT_OPEN_FILE);
 		return IL_FALSE;
 	}
 
-	if (iCurImage->Pal.Palette && iCurImage->Pal.PalSize > 0 && iCurImage->Pal.PalType != IL_PAL_NONE) {
-		ifree(iCurImage->Pal.Palette);
-		iCurImage->Pal.Palette = NULL;
-	}
-
-	iFgetw(Buff, BUFFLEN, PalFile);
-	if (stricmp((const char*)Buff, "JASC-PAL")) {
-		Error = IL_TRUE;
-	}
-	iFgetw(Buff, BUFFLEN, PalFile);
-	if (stricmp((const char*)Buff, "0100")) {
-		Error = IL_TRUE;
-	}
-
-	iFgetw(Buff, BUFFLEN, PalFile);
-	NumColours = atoi((const char*)Buff);
-	if (NumColours == 0 || Error) {
+	iSetInputFile(PalFile);
+	Size = iPalFileSize();
+	if (iFgetw(Buff, BUFFLEN, &Size) == NULL || stricmp((const char*)Buff, "JASC-PAL") ||
+		iFgetw(Buff, BUFFLEN, &Size) == NULL || stricmp((const char*)Buff, "0100") ||
+		iFgetw(Buff, BUFFLEN, &Size) == NULL || atoi((const char*)Buff) < 1 || atoi((const char*)Buff) > 256) {
+		icloser(PalFile);
 		ilSetError(IL_INVALID_FILE_HEADER);
-		fclose(PalFile);
 		return IL_FALSE;
 	}
-	
-	Pal->PalSize = NumColours * PALBPP;
-	Pal->PalType = IL_PAL_RGB24;
-	Pal->Palette = (ILubyte*)ialloc(NumColours * PALBPP);
-	if (Pal->Palette == NULL) {
-		fclose(PalFile);
+	NumColours = atoi((const char*)Buff);
+
+	Palette = (ILubyte*)ialloc(NumColours * PALBPP);
+	if (Palette == NULL) {
+		icloser(PalFile);
 		return IL_FALSE;
 	}
 
-	for (i = 0; i < NumColours; i++) {
-		for (c = 0; c < PALBPP; c++) {
-			iFgetw(Buff, BUFFLEN, PalFile);
-			Pal->Palette[i * PALBPP + c] = atoi((const char*)Buff);
+	for (i = 0; i < NumColours * PALBPP; i++) {
+		if (iFgetw(Buff, BUFFLEN, &Size) == NULL || !isdigit(Buff[0])) {
+			icloser(PalFile);
+			ifree(Palette);
+			ilSetError(IL_ILLEGAL_FILE_VALUE);
+			return IL_FALSE;
 		}
+		Palette[i] = (ILubyte)atoi((const char*)Buff);
 	}
 
-	fclose(PalFile);
+	icloser(PalFile);
+	iSetLoadedPal(Palette, NumColours * PALBPP);
 
 	return IL_TRUE;
 }
 
 
 // File Get Word
+//	Words are what lies between spaces and line ends.  Left is the number of bytes that are left in the file.
 //	MaxLen must be greater than 1, because the trailing NULL is always stored.
-char *iFgetw(ILubyte *Buff, ILint MaxLen, FILE *File)
+char *iFgetw(ILubyte *Buff, ILint MaxLen, ILuint *Left)
 {
 	ILint Temp;
-	ILint i;
+	ILint i = 0;
 
-	if (Buff == NULL || File == NULL || MaxLen < 2) {
+	if (Buff == NULL || Left == NULL || MaxLen < 2) {
 		ilSetError(IL_INVALID_PARAM);
 		return NULL;
 	}
 
-	for (i = 0; i < MaxLen - 1; i++) {
-		Temp = fgetc(File);
-		if (Temp == '\n' || Temp == '\0' || Temp == IL_EOF || feof(File)) {
-			break;			
-		}
-
-		if (Temp == ' ') {
-			while (Temp == ' ') {  // Just to get rid of any extra spaces
-				Temp = fgetc(File);
-			}
-			fseek(File, -1, IL_SEEK_CUR);  // Go back one
+	while (*Left > 0) {
+		Temp = igetc();
+		if (Temp == IL_EOF) {
+			*Left = 0;
 			break;
 		}
-
-		if (!isprint(Temp)) {  // Skips any non-printing characters
-			while (!isprint(Temp)) {
-				Temp = fgetc(File);
-			}
-			fseek(File, -1, IL_SEEK_CUR);
-			break;
+		(*Left)--;
+		if (Temp <= ' ' || Temp >= 127) {  // Not part of a word
+			if (i > 0)
+				break;
+			continue;
 		}
-
-		Buff[i] = Temp;
+		if (i < MaxLen - 1)
+			Buff[i++] = (ILubyte)Temp;
 	}
 
 	Buff[i] = '\0';
-	return (char *)Buff;
+	return i > 0 ? (char*)Buff : NULL;
 }
 
 
@@ -213,9 +225,9 @@ ILboolean ILAPIENTRY ilSavePal(ILconst_string FileName)
 //! Saves a Paint Shop Pro formatted palette (.pal) file.
 ILboolean ilSaveJascPal(ILconst_string FileName)
 {
-	FILE	*PalFile;
-	ILuint	i, PalBpp, NumCols = ilGetInteger(IL_PALETTE_NUM_COLS);
-	ILubyte	*CurPal;
+	ILHANDLE	PalFile;
+	ILuint		i, NumCols = ilGetInteger(IL_PALETTE_NUM_COLS);
+	ILpal		*Pal;
 
 	if (iCurImage == NULL || NumCols == 0 || NumCols > 256) {
 		ilSetError(IL_ILLEGAL_OPERATION);
@@ -243,50 +255,35 @@ ILboolean ilSaveJascPal(ILconst_string FileName)
 		}
 	}
 
-	// Create a copy of the current palette and convert it to RGB24 format.
-	CurPal = iCurImage->Pal.Palette;
-	iCurImage->Pal.Palette = (ILubyte*)ialloc(iCurImage->Pal.PalSize);
-	if (!iCurImage->Pal.Palette) {
-		iCurImage->Pal.Palette = CurPal;
-		return IL_FALSE;
-	}
-
-	memcpy(iCurImage->Pal.Palette, CurPal, iCurImage->Pal.PalSize);
-	if (!ilConvertPal(IL_PAL_RGB24)) {
-		ifree(iCurImage->Pal.Palette);
-		iCurImage->Pal.Palette = CurPal;
+	Pal = iConvertPal(&iCurImage->Pal, IL_PAL_RGB24);
+	if (Pal == NULL)
 		return IL_FALSE;
-	}
 
-#ifndef _UNICODE
-	PalFile = fopen(FileName, "wt");
-#else
-	PalFile = _wfopen(FileName, L"wt");
-#endif//_UNICODE
-	if (!PalFile) {
+	PalFile = iopenw(FileName);
+	if (PalFile == NULL) {
 		ilSetError(IL_COULD_NOT_OPEN_FILE);
+		ifree(Pal->Palette);
+		ifree(Pal);
 		return IL_FALSE;
 	}
+	iSetOutputFile(PalFile);
 
 	// Header needed on all .pal files
-	fputs("JASC-PAL\n0100\n256\n", PalFile);
+	ilprintf("JASC-PAL\n0100\n256\n");
 
-	PalBpp = ilGetBppPal(iCurImage->Pal.PalType);
-	for (i = 0; i < iCurImage->Pal.PalSize; i += PalBpp) {
-		fprintf(PalFile, "%d %d %d\n",
-			iCurImage->Pal.Palette[i], iCurImage->Pal.Palette[i+1], iCurImage->Pal.Palette[i+2]);
-	}
-
-	NumCols = 256 - NumCols;
-	for (i = 0; i < NumCols; i++) {
-		fprintf(PalFile, "0 0 0\n");
-	}
+	for (i = 0; i + PALBPP <= Pal->PalSize; i += PALBPP)
+		ilprintf("%d %d %d\n", Pal->Palette[i], Pal->Palette[i+1], Pal->Palette[i+2]);
+	for (; i < 256 * PALBPP; i += PALBPP)
+		ilprintf("0 0 0\n");
 
-	ifree(iCurImage->Pal.Palette);
-	iCurImage->Pal.Palette = CurPal;
-
-	fclose(PalFile);
+	iclosew(PalFile);
+	ifree(Pal->Palette);
+	ifree(Pal);
 
+	if (!iWriteOk()) {  // Something is missing in the file.
+		ilSetError(IL_FILE_WRITE_ERROR);
+		return IL_FALSE;
+	}
 	return IL_TRUE;
 }
 
@@ -296,7 +293,7 @@ ILboolean ilLoadHaloPal(ILconst_string FileName)
 {
 	ILHANDLE	HaloFile;
 	HALOHEAD	HaloHead;
-	ILushort	*TempPal;
+	ILubyte		*Palette;
 	ILuint		i, Size;
 
 	if (!iCheckExtension(FileName, IL_TEXT("pal"))) {
@@ -315,47 +312,40 @@ ILboolean ilLoadHaloPal(ILconst_string FileName)
 		return IL_FALSE;
 	}
 
-	if (iread(&HaloHead, sizeof(HALOHEAD), 1) != 1)
-		return IL_FALSE;
-
-	if (HaloHead.Id != 'A' + ('H' << 8) || HaloHead.Version != 0xe3) {
-		icloser(HaloFile);
-		ilSetError(IL_ILLEGAL_FILE_VALUE);
-		return IL_FALSE;
-	}
-
-	Size = (HaloHead.MaxIndex + 1) * 3;
-	TempPal = (ILushort*)ialloc(Size * sizeof(ILushort));
-	if (TempPal == NULL) {
+	iSetInputFile(HaloFile);
+	if (iread(&HaloHead, sizeof(HALOHEAD), 1) != 1) {
 		icloser(HaloFile);
 		return IL_FALSE;
 	}
+	UShort(&HaloHead.Id);
+	Short(&HaloHead.Version);
+	UShort(&HaloHead.MaxIndex);
 
-	if (iread(TempPal, sizeof(ILushort), Size) != Size) {
+	if (HaloHead.Id != 'A' + ('H' << 8) || HaloHead.Version != 0xe3 || HaloHead.MaxIndex > 255) {
 		icloser(HaloFile);
-		ifree(TempPal);
+		ilSetError(IL_ILLEGAL_FILE_VALUE);
 		return IL_FALSE;
 	}
 
-	if (iCurImage->Pal.Palette && iCurImage->Pal.PalSize > 0 && iCurImage->Pal.PalType != IL_PAL_NONE) {
-		ifree(iCurImage->Pal.Palette);
-		iCurImage->Pal.Palette = NULL;
-	}
-	iCurImage->Pal.PalType = IL_PAL_RGB24;
-	iCurImage->Pal.PalSize = Size;
-	iCurImage->Pal.Palette = (ILubyte*)ialloc(iCurImage->Pal.PalSize);
-	if (iCurImage->Pal.Palette == NULL) {
+	Size = (HaloHead.MaxIndex + 1) * 3;
+	Palette = (ILubyte*)ialloc(Size);
+	if (Palette == NULL) {
 		icloser(HaloFile);
 		return IL_FALSE;
 	}
 
-	for (i = 0; i < iCurImage->Pal.PalSize; i++, TempPal++) {
-		iCurImage->Pal.Palette[i] = (ILubyte)*TempPal;
+	for (i = 0; i < Size; i++) {
+		ILubyte Value[2];  // Only the low byte is used.
+		if (iread(Value, 1, 2) != 2) {
+			icloser(HaloFile);
+			ifree(Palette);
+			return IL_FALSE;
+		}
+		Palette[i] = Value[0];
 	}
-	TempPal -= iCurImage->Pal.PalSize;
-	ifree(TempPal);
 
 	icloser(HaloFile);
+	iSetLoadedPal(Palette, Size);
 
 	return IL_TRUE;
 }
@@ -370,6 +360,7 @@ ILboolean ilLoadColPal(ILconst_string FileName)
 	ILuint		RealFileSize, FileSize;
 	ILushort	Version;
 	ILHANDLE	ColFile;
+	ILboolean	bRet;
 
 	if (!iCheckExtension(FileName, IL_TEXT("col"))) {
 		ilSetError(IL_INVALID_EXTENSION);
@@ -387,61 +378,24 @@ ILboolean ilLoadColPal(ILconst_string FileName)
 		return IL_FALSE;
 	}
 
-	if (iCurImage->Pal.Palette && iCurImage->Pal.PalSize > 0 && iCurImage->Pal.PalType != IL_PAL_NONE) {
-		ifree(iCurImage->Pal.Palette);
-		iCurImage->Pal.Palette = NULL;
-	}
-
-	iseek(0, IL_SEEK_END);
-	RealFileSize = ftell((FILE*)ColFile);
-	iseek(0, IL_SEEK_SET);
+	iSetInputFile(ColFile);
+	RealFileSize = iPalFileSize();
 
 	if (RealFileSize > 768) {  // has a header
-		fread(&FileSize, 4, 1, (FILE*)ColFile);
-		if ((FileSize - 8) % 3 != 0) {  // check to make sure an even multiple of 3!
+		FileSize = GetLittleUInt();
+		Version = GetLittleUShort();
+		if (FileSize < 8 || (FileSize - 8) % 3 != 0 ||  // check to make sure an even multiple of 3!
+			Version != 0xB123 || GetLittleUShort() != 0) {
 			icloser(ColFile);
 			ilSetError(IL_ILLEGAL_FILE_VALUE);
 			return IL_FALSE;
 		}
-		if (iread(&Version, 2, 1) != 1) {
-			icloser(ColFile);
-			return IL_FALSE;
-		}
-		if (Version != 0xB123) {
-			icloser(ColFile);
-			ilSetError(IL_ILLEGAL_FILE_VALUE);
-			return IL_FALSE;
-		}
-		if (iread(&Version, 2, 1) != 1) {
-			icloser(ColFile);
-			return IL_FALSE;
-		}
-		if (Version != 0) {
-			icloser(ColFile);
-			ilSetError(IL_ILLEGAL_FILE_VALUE);
-			return IL_FALSE;
-		}
-	}
-
-	iCurImage->Pal.Palette = (ILubyte*)ialloc(768);
-	if (iCurImage->Pal.Palette == NULL) {
-		icloser(ColFile);
-		return IL_FALSE;
-	}
-
-	if (iread(iCurImage->Pal.Palette, 1, 768) != 768) {
-		icloser(ColFile);
-		ifree(iCurImage->Pal.Palette);
-		iCurImage->Pal.Palette = NULL;
-		return IL_FALSE;
 	}
 
-	iCurImage->Pal.PalSize = 768;
-	iCurImage->Pal.PalType = IL_PAL_RGB24;
-
+	bRet = iReadPal(768);
 	icloser(ColFile);
 
-	return IL_TRUE;
+	return bRet;
 }
 
 
@@ -449,6 +403,7 @@ ILboolean ilLoadColPal(ILconst_string FileName)
 ILboolean ilLoadActPal(ILconst_string FileName)
 {
 	ILHANDLE	ActFile;
+	ILboolean	bRet;
 
 	if (!iCheckExtension(FileName, IL_TEXT("act"))) {
 		ilSetError(IL_INVALID_EXTENSION);
@@ -466,27 +421,11 @@ ILboolean ilLoadActPal(ILconst_string FileName)
 		return IL_FALSE;
 	}
 
-	if (iCurImage->Pal.Palette && iCurImage->Pal.PalSize > 0 && iCurImage->Pal.PalType != IL_PAL_NONE) {
-		ifree(iCurImage->Pal.Palette);
-		iCurImage->Pal.Palette = NULL;
-	}
-
-	iCurImage->Pal.PalType = IL_PAL_RGB24;
-	iCurImage->Pal.PalSize = 768;
-	iCurImage->Pal.Palette = (ILubyte*)ialloc(768);
-	if (!iCurImage->Pal.Palette) {
-		icloser(ActFile);
-		return IL_FALSE;
-	}
-
-	if (iread(iCurImage->Pal.Palette, 1, 768) != 768) {
-		icloser(ActFile);
-		return IL_FALSE;
-	}
-
+	iSetInputFile(ActFile);
+	bRet = iReadPal(768);
 	icloser(ActFile);
 
-	return IL_TRUE;
+	return bRet;
 }
 
 
@@ -494,6 +433,8 @@ ILboolean ilLoadActPal(ILconst_string FileName)
 ILboolean ilLoadPltPal(ILconst_string FileName)
 {
 	ILHANDLE	PltFile;
+	ILuint		PalSize;
+	ILboolean	bRet;
 
 	if (!iCheckExtension(FileName, IL_TEXT("plt"))) {
 		ilSetError(IL_INVALID_EXTENSION);
@@ -511,33 +452,18 @@ ILboolean ilLoadPltPal(ILconst_string FileName)
 		return IL_FALSE;
 	}
 
-	if (iCurImage->Pal.Palette && iCurImage->Pal.PalSize > 0 && iCurImage->Pal.PalType != IL_PAL_NONE) {
-		ifree(iCurImage->Pal.Palette);
-		iCurImage->Pal.Palette = NULL;
-	}
-
-	iCurImage->Pal.PalSize = GetLittleUInt();
-	if (iCurImage->Pal.PalSize == 0) {
-		ilSetError(IL_INVALID_FILE_HEADER);
-		return IL_FALSE;
-	}
-	iCurImage->Pal.PalType = IL_PAL_RGB24;
-	iCurImage->Pal.Palette = (ILubyte*)ialloc(iCurImage->Pal.PalSize);
-	if (!iCurImage->Pal.Palette) {
-		icloser(PltFile);
-		return IL_FALSE;
-	}
-
-	if (iread(iCurImage->Pal.Palette, iCurImage->Pal.PalSize, 1) != 1) {
-		ifree(iCurImage->Pal.Palette);
-		iCurImage->Pal.Palette = NULL;
+	iSetInputFile(PltFile);
+	PalSize = GetLittleUInt();
+	if (PalSize == 0 || PalSize > 256 * PALBPP || PalSize % PALBPP != 0) {
 		icloser(PltFile);
+		ilSetError(IL_INVALID_FILE_HEADER);
 		return IL_FALSE;
 	}
 
+	bRet = iReadPal(PalSize);
 	icloser(PltFile);
 
-	return IL_TRUE;
+	return bRet;
 }
 
 
-- 
2.43.0


From 70d65f231fcebe6a5516d1d41e00bb481aecc9cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:07 +0000
Subject: [PATCH 057/115] fix: ilSaveData writes the data, raw data of any size
 is read or refused

---
 DevIL/src-IL/src/il_rawdata.cpp | 32 +++++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/DevIL/src-IL/src/il_rawdata.cpp b/DevIL/src-IL/src/il_rawdata.cpp
index 0ba66b6..bc589e2 100644
--- a/DevIL/src-IL/src/il_rawdata.cpp
+++ b/DevIL/src-IL/src/il_rawdata.cpp
@@ -74,22 +74,15 @@ ILboolean iLoadDataInternal(ILuint Width, ILuint Height, ILuint Depth, ILubyte B
 		return IL_FALSE;
 	}
 
-	if (!ilTexImage(Width, Height, Depth, Bpp, 0, IL_UNSIGNED_BYTE, NULL)) {
+	if (!ilTexImage(Width, Height, Depth, Bpp, Bpp == 1 ? IL_LUMINANCE : Bpp == 3 ? IL_RGB : IL_RGBA, IL_UNSIGNED_BYTE, NULL)) {
 		return IL_FALSE;
 	}
 	iCurImage->Origin = IL_ORIGIN_UPPER_LEFT;
 
 	// Tries to read the correct amount of data
-	if (iread(iCurImage->Data, Width * Height * Depth * Bpp, 1) != 1)
+	if (iread(iCurImage->Data, iCurImage->SizeOfData, 1) != 1)
 		return IL_FALSE;
 
-	if (iCurImage->Bpp == 1)
-		iCurImage->Format = IL_LUMINANCE;
-	else if (iCurImage->Bpp == 3)
-		iCurImage->Format = IL_RGB;
-	else  // 4
-		iCurImage->Format = IL_RGBA;
-
 	return ilFixImage();
 }
 
@@ -104,15 +97,32 @@ ILboolean ILAPIENTRY ilSaveData(ILconst_string FileName)
 		return IL_FALSE;
 	}
 
-	DataFile = iopenr(FileName);
+	if (FileName == NULL || ilStrLen(FileName) < 1) {
+		ilSetError(IL_INVALID_PARAM);
+		return IL_FALSE;
+	}
+
+	if (ilGetBoolean(IL_FILE_MODE) == IL_FALSE) {
+		if (iFileExists(FileName)) {
+			ilSetError(IL_FILE_ALREADY_EXISTS);
+			return IL_FALSE;
+		}
+	}
+
+	DataFile = iopenw(FileName);
 	if (DataFile == NULL) {
 		ilSetError(IL_COULD_NOT_OPEN_FILE);
 		return IL_FALSE;
 	}
 
+	iSetOutputFile(DataFile);
 	iwrite(iCurImage->Data, 1, iCurImage->SizeOfData);
-	icloser(DataFile);
+	iclosew(DataFile);
 
+	if (!iWriteOk()) {  // Something is missing in the file.
+		ilSetError(IL_FILE_WRITE_ERROR);
+		return IL_FALSE;
+	}
 	return IL_TRUE;
 }
 
-- 
2.43.0


From 2d8ffba67861c6c5a2e275ecf31d69fc0b38cb1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:41 +0000
Subject: [PATCH 058/115] fix: raw images with one, two, three or four channels
 load in their format, others are refused

---
 DevIL/src-IL/src/il_raw.cpp | 47 +++++++++++++++++++++++--------------
 1 file changed, 29 insertions(+), 18 deletions(-)

diff --git a/DevIL/src-IL/src/il_raw.cpp b/DevIL/src-IL/src/il_raw.cpp
index 881fdd3..9fbed50 100644
--- a/DevIL/src-IL/src/il_raw.cpp
+++ b/DevIL/src-IL/src/il_raw.cpp
@@ -70,24 +70,42 @@ ILboolean ilLoadRawL(const void *Lump, ILuint Size)
 // Internal function to load a raw image
 ILboolean iLoadRawInternal()
 {
+	ILuint	Width, Height, Depth;
+	ILubyte	Bpp, Bpc;
+	ILenum	Format;
+
 	if (iCurImage == NULL) {
 		ilSetError(IL_ILLEGAL_OPERATION);
 		return IL_FALSE;
 	}
 
-
-	iCurImage->Width = GetLittleUInt();
-
-	iCurImage->Height = GetLittleUInt();
-
-	iCurImage->Depth = GetLittleUInt();
-
-	iCurImage->Bpp = (ILubyte)igetc();
-
-	if (iread(&iCurImage->Bpc, 1, 1) != 1)
+	Width = GetLittleUInt();
+	Height = GetLittleUInt();
+	Depth = GetLittleUInt();
+	Bpp = (ILubyte)igetc();
+	if (iread(&Bpc, 1, 1) != 1)
 		return IL_FALSE;
 
-	if (!ilTexImage(iCurImage->Width, iCurImage->Height, iCurImage->Depth, iCurImage->Bpp, 0, ilGetTypeBpc(iCurImage->Bpc), NULL)) {
+	switch (Bpp)
+	{
+		case 1:
+			Format = IL_LUMINANCE;
+			break;
+		case 2:
+			Format = IL_LUMINANCE_ALPHA;
+			break;
+		case 3:
+			Format = IL_RGB;
+			break;
+		case 4:
+			Format = IL_RGBA;
+			break;
+		default:
+			ilSetError(IL_ILLEGAL_FILE_VALUE);
+			return IL_FALSE;
+	}
+
+	if (!ilTexImage(Width, Height, Depth, Bpp, Format, ilGetTypeBpc(Bpc), NULL)) {
 		return IL_FALSE;
 	}
 	iCurImage->Origin = IL_ORIGIN_LOWER_LEFT;
@@ -103,13 +121,6 @@ ILboolean iLoadRawInternal()
 		iCurImage->Origin = IL_ORIGIN_UPPER_LEFT;
 	}
 
-	if (iCurImage->Bpp == 1)
-		iCurImage->Format = IL_LUMINANCE;
-	else if (iCurImage->Bpp == 3)
-		iCurImage->Format = IL_RGB;
-	else  // 4
-		iCurImage->Format = IL_RGBA;
-
 	return ilFixImage();
 }
 
-- 
2.43.0


From d35946dd09c257cd9a2535030439a427b2b30673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:25 +0000
Subject: [PATCH 059/115] fix: C header saver goes through the file layer and
 checks it, ilSaveImage knows all PNM and TGA extensions, long header lines
 are written whole

---
 DevIL/src-IL/src/il_files.cpp  | 26 ++++++++++---
 DevIL/src-IL/src/il_header.cpp | 71 +++++++++++++++-------------------
 DevIL/src-IL/src/il_io.cpp     |  7 +++-
 3 files changed, 58 insertions(+), 46 deletions(-)

diff --git a/DevIL/src-IL/src/il_files.cpp b/DevIL/src-IL/src/il_files.cpp
index a677122..538c3c0 100644
--- a/DevIL/src-IL/src/il_files.cpp
+++ b/DevIL/src-IL/src/il_files.cpp
@@ -412,18 +412,32 @@ ILuint ILAPIENTRY ilGetLumpPos()
 
 ILuint ILAPIENTRY ilprintf(const char *Line, ...)
 {
-	char	Buffer[2048];  // Hope this is large enough
+	char	Buffer[2048], *Text = Buffer;
 	va_list	VaLine;
-	ILuint	i;
+	ILint	Length;
 
 	va_start(VaLine, Line);
-	vsprintf(Buffer, Line, VaLine);
+	Length = vsnprintf(Buffer, sizeof(Buffer), Line, VaLine);
 	va_end(VaLine);
+	if (Length < 0)
+		return 0;
 
-	i = ilCharStrLen(Buffer);
-	iwrite(Buffer, 1, i);
+	if ((size_t)Length >= sizeof(Buffer)) {  // A long string is part of the line.
+		Text = (char*)ialloc((ILsizei)Length + 1);
+		if (Text == NULL) {
+			WriteFailed = IL_TRUE;
+			return 0;
+		}
+		va_start(VaLine, Line);
+		vsnprintf(Text, (size_t)Length + 1, Line, VaLine);
+		va_end(VaLine);
+	}
 
-	return i;
+	iwrite(Text, 1, Length);
+	if (Text != Buffer)
+		ifree(Text);
+
+	return (ILuint)Length;
 }
 
 
diff --git a/DevIL/src-IL/src/il_header.cpp b/DevIL/src-IL/src/il_header.cpp
index 4115afe..6ece912 100644
--- a/DevIL/src-IL/src/il_header.cpp
+++ b/DevIL/src-IL/src/il_header.cpp
@@ -20,7 +20,7 @@
 //! Generates a C-style header file for the current image.
 ILboolean ilSaveCHeader(ILconst_string FileName, char *InternalName)
 {
-	FILE		*HeadFile;
+	ILHANDLE	HeadFile;
 	ILuint		i = 0, j;
 	ILimage		*TempImage;
 	const char	*Name;
@@ -60,73 +60,66 @@ ILboolean ilSaveCHeader(ILconst_string FileName, char *InternalName)
 		TempImage = iCurImage;
 	}
 
-#ifndef _UNICODE
-	HeadFile = fopen(FileName, "wb");
-#else
-	#ifdef _WIN32
-		HeadFile = _wfopen(FileName, L"rb");
-	#else
-		HeadFile = fopen((char*)FileName, "rb");
-	#endif
-
-#endif//_UNICODE
-
+	HeadFile = iopenw(FileName);
 	if (HeadFile == NULL) {
+		if (TempImage != iCurImage)
+			ilCloseImage(TempImage);
 		ilSetError(IL_COULD_NOT_OPEN_FILE);
-        return IL_FALSE;
+		return IL_FALSE;
 	}
-
-	fprintf(HeadFile, "//#include <il/il.h>\n");
-	fprintf(HeadFile, "// C Image Header:\n\n\n");
-	fprintf(HeadFile, "// IMAGE_BPP is in bytes per pixel, *not* bits\n");
-    fprintf(HeadFile, "#define IMAGE_BPP %d\n",iCurImage->Bpp);
-	fprintf(HeadFile, "#define IMAGE_WIDTH   %d\n", iCurImage->Width);
-	fprintf(HeadFile, "#define IMAGE_HEIGHT  %d\n", iCurImage->Height);	
-	fprintf(HeadFile, "#define IMAGE_DEPTH   %d\n\n\n", iCurImage->Depth);
-	fprintf(HeadFile, "#define IMAGE_TYPE    0x%X\n", iCurImage->Type);
-	fprintf(HeadFile, "#define IMAGE_FORMAT  0x%X\n\n\n", iCurImage->Format);
-    fprintf(HeadFile, "ILubyte %s[] = {\n", Name);
+	iSetOutputFile(HeadFile);
+
+	ilprintf("//#include <il/il.h>\n");
+	ilprintf("// C Image Header:\n\n\n");
+	ilprintf("// IMAGE_BPP is in bytes per pixel, *not* bits\n");
+    ilprintf("#define IMAGE_BPP %d\n",iCurImage->Bpp);
+	ilprintf("#define IMAGE_WIDTH   %d\n", iCurImage->Width);
+	ilprintf("#define IMAGE_HEIGHT  %d\n", iCurImage->Height);	
+	ilprintf("#define IMAGE_DEPTH   %d\n\n\n", iCurImage->Depth);
+	ilprintf("#define IMAGE_TYPE    0x%X\n", TempImage->Type);
+	ilprintf("#define IMAGE_FORMAT  0x%X\n\n\n", iCurImage->Format);
+    ilprintf("ILubyte %s[] = {\n", Name);
         
 
 	for (; i < TempImage->SizeOfData; i += MAX_LINE_WIDTH) {
-		fprintf(HeadFile, "\t");
+		ilprintf("\t");
 		for (j = 0; j < MAX_LINE_WIDTH; j++) {
 			if (i + j >= TempImage->SizeOfData - 1) {
-				fprintf(HeadFile, "%4d", TempImage->Data[i+j]);
+				ilprintf("%4d", TempImage->Data[i+j]);
 				break;
 			}
 			else
-				fprintf(HeadFile, "%4d,", TempImage->Data[i+j]);
+				ilprintf("%4d,", TempImage->Data[i+j]);
 		}
-		fprintf(HeadFile, "\n");
+		ilprintf("\n");
 	}
 	if (TempImage != iCurImage)
 		ilCloseImage(TempImage);
 
-	fprintf(HeadFile, "};\n");
+	ilprintf("};\n");
 
 
 	if (iCurImage->Pal.Palette && iCurImage->Pal.PalSize && iCurImage->Pal.PalType != IL_PAL_NONE) {
-		fprintf(HeadFile, "\n\n");
-		fprintf(HeadFile, "#define IMAGE_PALSIZE %u\n\n", iCurImage->Pal.PalSize);
-		fprintf(HeadFile, "#define IMAGE_PALTYPE 0x%X\n\n", iCurImage->Pal.PalType);
-        fprintf(HeadFile, "ILubyte %sPal[] = {\n", Name);
+		ilprintf("\n\n");
+		ilprintf("#define IMAGE_PALSIZE %u\n\n", iCurImage->Pal.PalSize);
+		ilprintf("#define IMAGE_PALTYPE 0x%X\n\n", iCurImage->Pal.PalType);
+        ilprintf("ILubyte %sPal[] = {\n", Name);
 		for (i = 0; i < iCurImage->Pal.PalSize; i += MAX_LINE_WIDTH) {
-			fprintf(HeadFile, "\t");
+			ilprintf("\t");
 			for (j = 0; j < MAX_LINE_WIDTH; j++) {
 				if (i + j >= iCurImage->Pal.PalSize - 1) {
-					fprintf(HeadFile, " %4d", iCurImage->Pal.Palette[i+j]);
+					ilprintf(" %4d", iCurImage->Pal.Palette[i+j]);
 					break;
 				}
 				else
-					fprintf(HeadFile, " %4d,", iCurImage->Pal.Palette[i+j]);
+					ilprintf(" %4d,", iCurImage->Pal.Palette[i+j]);
 			}
-			fprintf(HeadFile, "\n");
+			ilprintf("\n");
 		}
 
-		fprintf(HeadFile, "};\n");
+		ilprintf("};\n");
 	}
-	fclose(HeadFile);
+	iclosew(HeadFile);
 	return IL_TRUE;
 }
 
diff --git a/DevIL/src-IL/src/il_io.cpp b/DevIL/src-IL/src/il_io.cpp
index 11f8061..538f46c 100644
--- a/DevIL/src-IL/src/il_io.cpp
+++ b/DevIL/src-IL/src/il_io.cpp
@@ -3083,6 +3083,10 @@ ILboolean ILAPIENTRY ilSaveImage(ILconst_string FileName)
 		bRet = ilSavePnm(FileName);
 		goto finish;
 	}
+	if (!iStrCmp(Ext, IL_TEXT("pnm"))) {
+		bRet = ilSavePnm(FileName);
+		goto finish;
+	}
 	#endif
 
 	#ifndef IL_NO_PSD
@@ -3108,7 +3112,8 @@ ILboolean ILAPIENTRY ilSaveImage(ILconst_string FileName)
 	#endif
 
 	#ifndef IL_NO_TGA
-	if (!iStrCmp(Ext, IL_TEXT("tga"))) {
+	if (!iStrCmp(Ext, IL_TEXT("tga")) || !iStrCmp(Ext, IL_TEXT("vda")) ||
+		!iStrCmp(Ext, IL_TEXT("icb")) || !iStrCmp(Ext, IL_TEXT("vst"))) {
 		bRet = ilSaveTarga(FileName);
 		goto finish;
 	}
-- 
2.43.0


From 2bd9b9392c095a2fb6ab44e1e6b8e9995220966e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:17 +0000
Subject: [PATCH 060/115] fix: ILU filters stay inside the image and its
 region, handle every type, keep alpha, palettes and the format, and report
 failures

---
 DevIL/src-ILU/include/ilu_internal.h |    4 +-
 DevIL/src-ILU/src/ilu_filter.cpp     | 1361 ++++++++------------------
 DevIL/src-ILU/src/ilu_manip.cpp      |    3 +-
 DevIL/src-ILU/src/ilu_noise.cpp      |  145 +--
 DevIL/src-ILU/src/ilu_region.cpp     |   16 +-
 5 files changed, 516 insertions(+), 1013 deletions(-)

diff --git a/DevIL/src-ILU/include/ilu_internal.h b/DevIL/src-ILU/include/ilu_internal.h
index 09f4ff1..bfbbf2a 100644
--- a/DevIL/src-ILU/include/ilu_internal.h
+++ b/DevIL/src-ILU/include/ilu_internal.h
@@ -79,7 +79,9 @@ ILint ilRound(ILfloat Num);
 
 
 ILuint	iluScaleAdvanced(ILuint Width, ILuint Height, ILenum Filter);
-ILubyte	*iScanFill(void);
+ILboolean	iScanFill(ILubyte **Mask);
+ILimage	*iFilterBegin(void);
+ILboolean	iFilterEnd(ILimage *Image, ILboolean Success);
 void	iTakeImage(ILimage *Dest, ILimage *Src);
 
 
diff --git a/DevIL/src-ILU/src/ilu_filter.cpp b/DevIL/src-ILU/src/ilu_filter.cpp
index 19d37d1..d5b8eb1 100644
--- a/DevIL/src-ILU/src/ilu_filter.cpp
+++ b/DevIL/src-ILU/src/ilu_filter.cpp
@@ -7,15 +7,98 @@
 #include <limits.h>
 
 
-// Could probably be optimized a bit...too many nested for loops.
+// Gives the image that a filter for bytes works on: the current image itself if it has bytes
+//	and no palette, otherwise a copy of it that does.
+ILimage *iFilterBegin()
+{
+	iluCurImage = ilGetCurImage();
+	if (iluCurImage == NULL) {
+		ilSetError(ILU_ILLEGAL_OPERATION);
+		return NULL;
+	}
+
+	if (iluCurImage->Format == IL_COLOUR_INDEX)
+		return iConvertImage(iluCurImage, ilGetPalBaseType(iluCurImage->Pal.PalType), IL_UNSIGNED_BYTE);
+	if (iluCurImage->Type != IL_UNSIGNED_BYTE)
+		return iConvertImage(iluCurImage, iluCurImage->Format, IL_UNSIGNED_BYTE);
+	return iluCurImage;
+}
+
+
+// Brings the result back to the current image, which keeps its format and type.
+ILboolean iFilterEnd(ILimage *Image, ILboolean Success)
+{
+	ILimage	*Result = NULL;
+	ILpal	Pal;
+
+	if (Image == iluCurImage)
+		return Success;
+
+	if (Success)
+		Result = iConvertImage(Image, iluCurImage->Format, iluCurImage->Type);
+	ilCloseImage(Image);
+	if (Result == NULL)
+		return IL_FALSE;
+
+	ifree(iluCurImage->Data);
+	iluCurImage->Data = Result->Data;
+	Result->Data = NULL;
+	if (iluCurImage->Format == IL_COLOUR_INDEX) {
+		Pal = iluCurImage->Pal;
+		iluCurImage->Pal = Result->Pal;
+		Result->Pal = Pal;
+	}
+	ilCloseImage(Result);
+
+	return IL_TRUE;
+}
+
+
+// Gives every block of PixSize pixels in each direction its average.
+template<class T, class SUM> static void iPixelizeData(ILimage *Image, const ILubyte *RegionMask, ILuint PixSize)
+{
+	T		*Data = (T*)Image->Data;
+	ILuint	x, y, z, i, j, k, c, EndX, EndY, EndZ;
+	SUM		Total, Tested;
+
+	for (z = 0; z < Image->Depth; z = EndZ) {
+		EndZ = z + IL_MIN(PixSize, Image->Depth - z);
+		for (y = 0; y < Image->Height; y = EndY) {
+			EndY = y + IL_MIN(PixSize, Image->Height - y);
+			for (x = 0; x < Image->Width; x = EndX) {
+				EndX = x + IL_MIN(PixSize, Image->Width - x);
+				for (c = 0; c < Image->Bpp; c++) {
+					Total = 0;  Tested = 0;
+					for (k = z; k < EndZ; k++) {
+						for (j = y; j < EndY; j++) {
+							for (i = x; i < EndX; i++, Tested++)
+								Total += Data[((k * Image->Height + j) * Image->Width + i) * Image->Bpp + c];
+						}
+					}
+					Total /= Tested;
+
+					for (k = z; k < EndZ; k++) {
+						for (j = y; j < EndY; j++) {
+							for (i = x; i < EndX; i++) {
+								if (RegionMask && !RegionMask[(k * Image->Height + j) * Image->Width + i])
+									continue;
+								Data[((k * Image->Height + j) * Image->Width + i) * Image->Bpp + c] = (T)Total;
+							}
+						}
+					}
+				}
+			}
+		}
+	}
+}
+
+
 //! Pixelizes an image
 ILboolean ILAPIENTRY iluPixelize(ILuint PixSize)
 {
-	ILuint		x, y, z, i, j, k, c, r, Total, Tested;
-	ILushort	*ShortPtr;
-	ILuint		*IntPtr;
-	ILdouble	*DblPtr, DblTotal, DblTested;
+	ILimage		*Image;
 	ILubyte		*RegionMask;
+	ILboolean	bRet = IL_TRUE;
 
 	iluCurImage = ilGetCurImage();
 	if (iluCurImage == NULL) {
@@ -25,159 +108,51 @@ ILboolean ILAPIENTRY iluPixelize(ILuint PixSize)
 
 	if (PixSize == 0)
 		PixSize = 1;
-	r = 0;
 
-	if (iluCurImage->Format == IL_COLOUR_INDEX)
-		ilConvertImage(ilGetPalBaseType(iluCurImage->Pal.PalType), IL_UNSIGNED_BYTE);
+	Image = iluCurImage;
+	if (iluCurImage->Format == IL_COLOUR_INDEX) {
+		Image = iFilterBegin();
+		if (Image == NULL)
+			return IL_FALSE;
+	}
 
-	RegionMask = iScanFill();
+	if (!iScanFill(&RegionMask))
+		return iFilterEnd(Image, IL_FALSE);
 
-	switch (iluCurImage->Bpc)
+	switch (Image->Type)
 	{
-		case 1:
-			for (z = 0; z < iluCurImage->Depth; z += PixSize) {
-				for (y = 0; y < iluCurImage->Height; y += PixSize) {
-					for (x = 0; x < iluCurImage->Width; x += PixSize) {
-						for (c = 0; c < iluCurImage->Bpp; c++) {
-							Total = 0;  Tested = 0;
-							for (k = 0; k < PixSize && z+k < iluCurImage->Depth; k++) {
-								for (j = 0; j < PixSize && y+j < iluCurImage->Height; j++) {
-									for (i = 0; i < PixSize && x+i < iluCurImage->Width; i++, Tested++) {
-										Total += iluCurImage->Data[(z+k) * iluCurImage->SizeOfPlane + 
-											(y+j) * iluCurImage->Bps + (x+i) * iluCurImage->Bpp + c];
-									}
-								}
-							}
-							Total /= Tested;
-
-							for (k = 0; k < PixSize && z+k < iluCurImage->Depth; k++) {
-								for (j = 0; j < PixSize && y+j < iluCurImage->Height; j++) {
-									for (i = 0; i < PixSize && x+i < iluCurImage->Width; i++, Tested++) {
-										if (RegionMask) {
-											if (!RegionMask[(y+j) * iluCurImage->Width + (x+i)])
-												continue;
-										}
-										iluCurImage->Data[(z+k) * iluCurImage->SizeOfPlane + (y+j)
-											* iluCurImage->Bps + (x+i) * iluCurImage->Bpp + c] =
-											Total;
-									}
-								}
-							}
-						}
-					}
-				}
-			}
+		case IL_BYTE:
+			iPixelizeData<ILbyte, ILint64>(Image, RegionMask, PixSize);
 			break;
-		case 2:
-			ShortPtr = (ILushort*)iluCurImage->Data;
-			iluCurImage->Bps /= 2;
-			for (z = 0; z < iluCurImage->Depth; z += PixSize) {
-				for (y = 0; y < iluCurImage->Height; y += PixSize) {
-					for (x = 0; x < iluCurImage->Width; x += PixSize, r += PixSize) {
-						for (c = 0; c < iluCurImage->Bpp; c++) {
-							Total = 0;  Tested = 0;
-							for (k = 0; k < PixSize && z+k < iluCurImage->Depth; k++) {
-								for (j = 0; j < PixSize && y+j < iluCurImage->Height; j++) {
-									for (i = 0; i < PixSize && x+i < iluCurImage->Width; i++, Tested++) {
-										Total += ShortPtr[(z+k) * iluCurImage->SizeOfPlane + 
-											(y+j) * iluCurImage->Bps + (x+i) * iluCurImage->Bpp + c];
-									}
-								}
-							}
-							Total /= Tested;
-
-							for (k = 0; k < PixSize && z+k < iluCurImage->Depth; k++) {
-								for (j = 0; j < PixSize && y+j < iluCurImage->Height; j++) {
-									for (i = 0; i < PixSize && x+i < iluCurImage->Width; i++, Tested++) {
-										if (RegionMask[r+i]) {
-											ShortPtr[(z+k) * iluCurImage->SizeOfPlane + (y+j)
-												* iluCurImage->Bps + (x+i) * iluCurImage->Bpp + c] =
-												Total;
-										}
-									}
-								}
-							}
-						}
-					}
-				}
-			}
-			iluCurImage->Bps *= 2;
+		case IL_UNSIGNED_BYTE:
+			iPixelizeData<ILubyte, ILint64>(Image, RegionMask, PixSize);
 			break;
-		case 4:
-			IntPtr = (ILuint*)iluCurImage->Data;
-			iluCurImage->Bps /= 4;
-			for (z = 0; z < iluCurImage->Depth; z += PixSize) {
-				for (y = 0; y < iluCurImage->Height; y += PixSize) {
-					for (x = 0; x < iluCurImage->Width; x += PixSize, r += PixSize) {
-						for (c = 0; c < iluCurImage->Bpp; c++) {
-							Total = 0;  Tested = 0;
-							for (k = 0; k < PixSize && z+k < iluCurImage->Depth; k++) {
-								for (j = 0; j < PixSize && y+j < iluCurImage->Height; j++) {
-									for (i = 0; i < PixSize && x+i < iluCurImage->Width; i++, Tested++) {
-										Total += IntPtr[(z+k) * iluCurImage->SizeOfPlane + 
-											(y+j) * iluCurImage->Bps + (x+i) * iluCurImage->Bpp + c];
-									}
-								}
-							}
-							Total /= Tested;
-
-							for (k = 0; k < PixSize && z+k < iluCurImage->Depth; k++) {
-								for (j = 0; j < PixSize && y+j < iluCurImage->Height; j++) {
-									for (i = 0; i < PixSize && x+i < iluCurImage->Width; i++, Tested++) {
-										if (RegionMask[r+i]) {
-											IntPtr[(z+k) * iluCurImage->SizeOfPlane + (y+j)
-												* iluCurImage->Bps + (x+i) * iluCurImage->Bpp + c] =
-												Total;
-										}
-									}
-								}
-							}
-						}
-					}
-				}
-			}
-			iluCurImage->Bps *= 4;
+		case IL_SHORT:
+			iPixelizeData<ILshort, ILint64>(Image, RegionMask, PixSize);
 			break;
-		case 8:
-			DblPtr = (ILdouble*)iluCurImage->Data;
-			iluCurImage->Bps /= 8;
-			for (z = 0; z < iluCurImage->Depth; z += PixSize) {
-				for (y = 0; y < iluCurImage->Height; y += PixSize) {
-					for (x = 0; x < iluCurImage->Width; x += PixSize, r += PixSize) {
-						for (c = 0; c < iluCurImage->Bpp; c++) {
-							DblTotal = 0.0;  DblTested = 0.0;
-							for (k = 0; k < PixSize && z+k < iluCurImage->Depth; k++) {
-								for (j = 0; j < PixSize && y+j < iluCurImage->Height; j++) {
-									for (i = 0; i < PixSize && x+i < iluCurImage->Width; i++, DblTested++) {
-										DblTotal += DblPtr[(z+k) * iluCurImage->SizeOfPlane + 
-											(y+j) * iluCurImage->Bps + (x+i) * iluCurImage->Bpp + c];
-									}
-								}
-							}
-							DblTotal /= DblTested;
-
-							for (k = 0; k < PixSize && z+k < iluCurImage->Depth; k++) {
-								for (j = 0; j < PixSize && y+j < iluCurImage->Height; j++) {
-									for (i = 0; i < PixSize && x+i < iluCurImage->Width; i++, DblTested++) {
-										if (RegionMask[r+i]) {
-											DblPtr[(z+k) * iluCurImage->SizeOfPlane + (y+j)
-												* iluCurImage->Bps + (x+i) * iluCurImage->Bpp + c] =
-												DblTotal;
-										}
-									}
-								}
-							}
-						}
-					}
-				}
-			}
-			iluCurImage->Bps *= 8;
+		case IL_UNSIGNED_SHORT:
+			iPixelizeData<ILushort, ILint64>(Image, RegionMask, PixSize);
 			break;
+		case IL_INT:
+			iPixelizeData<ILint, ILint64>(Image, RegionMask, PixSize);
+			break;
+		case IL_UNSIGNED_INT:
+			iPixelizeData<ILuint, ILint64>(Image, RegionMask, PixSize);
+			break;
+		case IL_FLOAT:
+			iPixelizeData<ILfloat, ILdouble>(Image, RegionMask, PixSize);
+			break;
+		case IL_DOUBLE:
+			iPixelizeData<ILdouble, ILdouble>(Image, RegionMask, PixSize);
+			break;
+		default:
+			ilSetError(ILU_ILLEGAL_OPERATION);
+			bRet = IL_FALSE;
 	}
 
 	ifree(RegionMask);
 
-	return IL_TRUE;
+	return iFilterEnd(Image, bRet);
 }
 
 
@@ -187,460 +162,167 @@ ILboolean ILAPIENTRY iluPixelize(ILuint PixSize)
 // Needs some SERIOUS optimization.
 ILubyte *Filter(ILimage *Image, const ILint *matrix, ILint scale, ILint bias)
 {
-    ILint		x, y, c, LastX, LastY, Offsets[9];
-	ILuint		i, Temp, z;
+	ILuint		x, y, z, c, i, Rows[3], Cur, Offsets[9];
+	ILboolean	Side;
 	ILubyte		*Data, *ImgData, *NewData, *RegionMask;
 	ILdouble	Num;
-	
+
 	if (Image == NULL) {
 		ilSetError(ILU_ILLEGAL_OPERATION);
 		return NULL;
 	}
+	if (scale == 0) {
+		ilSetError(ILU_INVALID_PARAM);
+		return NULL;
+	}
 
 	Data = (ILubyte*)ialloc(Image->SizeOfData);
 	if (Data == NULL) {
 		return NULL;
 	}
 
-	RegionMask = iScanFill();
-
-	// Preserve original data.
-	ImgData = Image->Data;
-	NewData = Data;
+	if (!iScanFill(&RegionMask)) {
+		ifree(Data);
+		return NULL;
+	}
 
 	for (z = 0; z < Image->Depth; z++) {
-		LastX = Image->Width  - 1;
-		LastY = Image->Height - 1;
-		for (y = 1; y < LastY; y++) {
-			for (x = 1; x < LastX; x++) {
-				Offsets[4] = ((y  ) * Image->Width + (x  )) * Image->Bpp;
-				if (RegionMask) {
-					if (!RegionMask[y * Image->Width + x]) {
-						for (c = 0; c < Image->Bpp; c++) {
-							Data[Offsets[4]+c] = Image->Data[Offsets[4]+c];
-						}
-						continue;
-					}
-				}
-
-				Offsets[0] = ((y-1) * Image->Width + (x-1)) * Image->Bpp;
-				Offsets[1] = ((y-1) * Image->Width + (x  )) * Image->Bpp;
-				Offsets[2] = ((y-1) * Image->Width + (x+1)) * Image->Bpp;
-				Offsets[3] = ((y  ) * Image->Width + (x-1)) * Image->Bpp;
-				Offsets[5] = ((y  ) * Image->Width + (x+1)) * Image->Bpp;
-				Offsets[6] = ((y+1) * Image->Width + (x-1)) * Image->Bpp;
-				Offsets[7] = ((y+1) * Image->Width + (x  )) * Image->Bpp;
-				Offsets[8] = ((y+1) * Image->Width + (x-1)) * Image->Bpp;
-
-				// Always has at least one, so get rid of all those +c's
-				Num =   Image->Data[Offsets[0]] * matrix[0] +
-						Image->Data[Offsets[1]] * matrix[1]+
-						Image->Data[Offsets[2]] * matrix[2]+
-						Image->Data[Offsets[3]] * matrix[3]+
-						Image->Data[Offsets[4]] * matrix[4]+
-						Image->Data[Offsets[5]] * matrix[5]+
-						Image->Data[Offsets[6]] * matrix[6]+
-						Image->Data[Offsets[7]] * matrix[7]+
-						Image->Data[Offsets[8]] * matrix[8];
-
-				Temp = (ILuint)fabs((Num / (ILdouble)scale) + bias);
-				if (Temp > 255)
-					Data[Offsets[4]] = 255;
-				else
-					Data[Offsets[4]] = Temp;
-
-				for (c = 1; c < Image->Bpp; c++) {
-					Num =   Image->Data[Offsets[0]+c] * matrix[0]+
-							Image->Data[Offsets[1]+c] * matrix[1]+
-							Image->Data[Offsets[2]+c] * matrix[2]+
-							Image->Data[Offsets[3]+c] * matrix[3]+
-							Image->Data[Offsets[4]+c] * matrix[4]+
-							Image->Data[Offsets[5]+c] * matrix[5]+
-							Image->Data[Offsets[6]+c] * matrix[6]+
-							Image->Data[Offsets[7]+c] * matrix[7]+
-							Image->Data[Offsets[8]+c] * matrix[8];
-
-					Temp = (ILuint)fabs((Num / (ILdouble)scale) + bias);
-					if (Temp > 255)
-						Data[Offsets[4]+c] = 255;
-					else
-						Data[Offsets[4]+c] = Temp;
-				}
-			}
-		}
-
-
-		// Copy 4 corners
-		for (c = 0; c < Image->Bpp; c++) {
-			Data[c] = Image->Data[c];
-			Data[Image->Bps - Image->Bpp + c] = Image->Data[Image->Bps - Image->Bpp + c];
-			Data[(Image->Height - 1) * Image->Bps + c] = Image->Data[(Image->Height - 1) * Image->Bps + c];
-			Data[Image->Height * Image->Bps - Image->Bpp + c] = 
-				Image->Data[Image->Height * Image->Bps - Image->Bpp + c];
-		}
-
+		ImgData = Image->Data + z * Image->SizeOfPlane;
+		NewData = Data + z * Image->SizeOfPlane;
 
 		// If we only copy the edge pixels, then they receive no filtering, making them
 		//	look out of place after several passes of an image.  So we filter the edge
 		//	rows/columns, duplicating the edge pixels for one side of the "matrix".
-
-		// First row
-		for (x = 1; x < (ILint)Image->Width-1; x++) {
-			if (RegionMask) {
-				if (!RegionMask[x]) {
-					Data[y + x * Image->Bpp + c] = Image->Data[y + x * Image->Bpp + c];
+		for (y = 0; y < Image->Height; y++) {
+			Rows[0] = (y == 0 ? y : y - 1) * Image->Bps;
+			Rows[1] = y * Image->Bps;
+			Rows[2] = (y == Image->Height - 1 ? y : y + 1) * Image->Bps;
+			for (x = 0; x < Image->Width; x++) {
+				Cur = Rows[1] + x * Image->Bpp;
+
+				// Copy 4 corners and what is outside of the region
+				if (((x == 0 || x == Image->Width - 1) && (y == 0 || y == Image->Height - 1)) ||
+					(RegionMask && !RegionMask[y * Image->Width + x])) {
+					memcpy(NewData + Cur, ImgData + Cur, Image->Bpp);
 					continue;
 				}
-			}
-			for (c = 0; c < Image->Bpp; c++) {
-				Num =   Image->Data[(x-1) * Image->Bpp + c] * matrix[0] +
-						Image->Data[x * Image->Bpp + c] * matrix[1]+
-						Image->Data[(x+1) * Image->Bpp + c] * matrix[2]+
-						Image->Data[(x-1) * Image->Bpp + c] * matrix[3]+
-						Image->Data[x * Image->Bpp + c] * matrix[4]+
-						Image->Data[(x+1) * Image->Bpp + c] * matrix[5]+
-						Image->Data[(Image->Width + (x-1)) * Image->Bpp + c] * matrix[6]+
-						Image->Data[(Image->Width + (x  )) * Image->Bpp + c] * matrix[7]+
-						Image->Data[(Image->Width + (x-1)) * Image->Bpp + c] * matrix[8];
-
-					Temp = (ILuint)fabs((Num / (ILdouble)scale) + bias);
-					if (Temp > 255)
-						Data[x * Image->Bpp + c] = 255;
-					else
-						Data[x * Image->Bpp + c] = Temp;
-			}
-		}
 
-		// Last row
-		y = (Image->Height - 1) * Image->Bps;
-		for (x = 1; x < (ILint)Image->Width-1; x++) {
-			if (RegionMask) {
-				if (!RegionMask[(Image->Height - 1) * Image->Width + x]) {
-					Data[y + x * Image->Bpp + c] = Image->Data[y + x * Image->Bpp + c];
-					continue;
+				// Both sides go on to the right, the last column with the next row.
+				Side = (x == 0 || x == Image->Width - 1);
+				for (i = 0; i < 9; i++) {
+					Offsets[i] = Rows[i / 3] + (Side ? x + i % 3 : x + i % 3 - 1) * Image->Bpp;
+					if (Offsets[i] >= Image->SizeOfPlane)  // There is no next row.
+						Offsets[i] = Image->SizeOfPlane - Image->Bpp;
 				}
-			}
-			for (c = 0; c < Image->Bpp; c++) {
-				Num =   Image->Data[y - Image->Bps + (x-1) * Image->Bpp + c] * matrix[0] +
-						Image->Data[y - Image->Bps + x * Image->Bpp + c] * matrix[1]+
-						Image->Data[y - Image->Bps + (x+1) * Image->Bpp + c] * matrix[2]+
-						Image->Data[y + (x-1) * Image->Bpp + c] * matrix[3]+
-						Image->Data[y + x * Image->Bpp + c] * matrix[4]+
-						Image->Data[y + (x+1) * Image->Bpp + c] * matrix[5]+
-						Image->Data[y + (x-1) * Image->Bpp + c] * matrix[6]+
-						Image->Data[y + x * Image->Bpp + c] * matrix[7]+
-						Image->Data[y + (x-1) * Image->Bpp + c] * matrix[8];
-
-					Temp = (ILuint)fabs((Num / (ILdouble)scale) + bias);
-					if (Temp > 255)
-						Data[y + x * Image->Bpp + c] = 255;
-					else
-						Data[y + x * Image->Bpp + c] = Temp;
-			}
-		}
+				if (!Side)
+					Offsets[8] = Offsets[6];
 
-		// Left side
-		for (i = 1, y = Image->Bps; i < Image->Height-1; i++, y += Image->Bps) {
-			if (RegionMask) {
-				if (!RegionMask[y / Image->Bpp]) {
-					Data[y + c] = Image->Data[y + c];
-					continue;
-				}
-			}
-			for (c = 0; c < Image->Bpp; c++) {
-				Num =   Image->Data[y - Image->Bps + c] * matrix[0] +
-						Image->Data[y - Image->Bps + Image->Bpp + c] * matrix[1]+
-						Image->Data[y - Image->Bps + 2 * Image->Bpp + c] * matrix[2]+
-						Image->Data[y + c] * matrix[3]+
-						Image->Data[y + Image->Bpp + c] * matrix[4]+
-						Image->Data[y + 2 * Image->Bpp + c] * matrix[5]+
-						Image->Data[y + Image->Bps + c] * matrix[6]+
-						Image->Data[y + Image->Bps + Image->Bpp + c] * matrix[7]+
-						Image->Data[y + Image->Bps + 2 * Image->Bpp + c] * matrix[8];
-
-					Temp = (ILuint)fabs((Num / (ILdouble)scale) + bias);
-					if (Temp > 255)
-						Data[y + c] = 255;
-					else
-						Data[y + c] = Temp;
-			}
-		}
+				for (c = 0; c < Image->Bpp; c++) {
+					Num = 0.0;
+					for (i = 0; i < 9; i++)
+						Num += (ILdouble)ImgData[Offsets[i] + c] * matrix[i];
 
-		// Right side
-		for (i = 1, y = Image->Bps * 2 - Image->Bpp; i < Image->Height-1; i++, y += Image->Bps) {
-			if (RegionMask) {
-				if (!RegionMask[y / Image->Bpp + (Image->Width - 1)]) {
-					for (c = 0; c < Image->Bpp; c++) {
-						Data[y + c] = Image->Data[y + c];
-					}
-					continue;
+					Num = fabs((Num / (ILdouble)scale) + bias);
+					NewData[Cur + c] = Num >= 255.0 ? 255 : (ILubyte)Num;
 				}
 			}
-			for (c = 0; c < Image->Bpp; c++) {
-				Num =   Image->Data[y - Image->Bps + c] * matrix[0] +
-						Image->Data[y - Image->Bps + Image->Bpp + c] * matrix[1]+
-						Image->Data[y - Image->Bps + 2 * Image->Bpp + c] * matrix[2]+
-						Image->Data[y + c] * matrix[3]+
-						Image->Data[y + Image->Bpp + c] * matrix[4]+
-						Image->Data[y + 2 * Image->Bpp + c] * matrix[5]+
-						Image->Data[y + Image->Bps + c] * matrix[6]+
-						Image->Data[y + Image->Bps + Image->Bpp + c] * matrix[7]+
-						Image->Data[y + Image->Bps + 2 * Image->Bpp + c] * matrix[8];
-
-					Temp = (ILuint)fabs((Num / (ILdouble)scale) + bias);
-					if (Temp > 255)
-						Data[y + c] = 255;
-					else
-						Data[y + c] = Temp;
-			}
 		}
-
-		// Go to next "plane".
-		Image->Data += Image->SizeOfPlane;
-		Data += Image->SizeOfPlane;
 	}
 
 	ifree(RegionMask);
 
-	// Restore original data.
-	Image->Data = ImgData;
-	Data = NewData;
-
 	return Data;
 }
 
 
-ILboolean ILAPIENTRY iluEdgeDetectP()
+// Filters the current image Iter times.
+static ILboolean iFilterImage(const ILint *matrix, ILint scale, ILint bias, ILuint Iter)
 {
-	ILubyte		*HPass, *VPass;
-	ILuint		i;
-	ILboolean	Palette = IL_FALSE, Converted = IL_FALSE;
-	ILenum		Type = 0;
-
-	iluCurImage = ilGetCurImage();
-	if (iluCurImage == NULL) {
-		ilSetError(ILU_ILLEGAL_OPERATION);
-		return IL_FALSE;
-	}
-
-	if (iluCurImage->Format == IL_COLOUR_INDEX) {
-		Palette = IL_TRUE;
-		ilConvertImage(ilGetPalBaseType(iluCurImage->Pal.PalType), IL_UNSIGNED_BYTE);
-	}
-	else if (iluCurImage->Type > IL_UNSIGNED_BYTE) {
-		Converted = IL_TRUE;
-		Type = iluCurImage->Type;
-		ilConvertImage(iluCurImage->Format, IL_UNSIGNED_BYTE);
-	}
-
+	ILimage	*Image;
+	ILubyte	*Data;
+	ILuint	i;
 
-	HPass = Filter(iluCurImage, filter_h_prewitt, filter_h_prewitt_scale, filter_h_prewitt_bias);
-	VPass = Filter(iluCurImage, filter_v_prewitt, filter_v_prewitt_scale, filter_v_prewitt_bias);
-	if (!HPass || !VPass) {
-		ifree(HPass);
-		ifree(VPass);
+	Image = iFilterBegin();
+	if (Image == NULL)
 		return IL_FALSE;
-	}
 
-	// Combine the two passes
-	//	Optimization by Matt Denham
-	for (i = 0; i < iluCurImage->SizeOfData; i++) {
-		if (HPass[i] == 0)
-			iluCurImage->Data[i] = VPass[i];
-		else if (VPass[i] == 0)
-			iluCurImage->Data[i] = HPass[i];
-		else
-			iluCurImage->Data[i] = (ILubyte)sqrt((float)(HPass[i]*HPass[i]+VPass[i]*VPass[i]));
+	for (i = 0; i < Iter; i++) {
+		Data = Filter(Image, matrix, scale, bias);
+		if (!Data)
+			return iFilterEnd(Image, IL_FALSE);
+		ifree(Image->Data);
+		Image->Data = Data;
 	}
 
-	/*for (i = 0; i < iluCurImage->SizeOfData; i++) {
-		iluCurImage->Data[i] = (ILubyte)sqrt(HPass[i]*HPass[i]+VPass[i]*VPass[i]);
-	}*/
-	
-	ifree(HPass);
-	ifree(VPass);
-
-	if (Palette)
-		ilConvertImage(IL_COLOUR_INDEX, IL_UNSIGNED_BYTE);
-	else if (Converted)
-		ilConvertImage(iluCurImage->Format, Type);
-
-	return IL_TRUE;
+	return iFilterEnd(Image, IL_TRUE);
 }
 
 
-ILboolean ILAPIENTRY iluEdgeDetectS()
+// Combines a horizontal and a vertical pass.
+static ILboolean iEdgeDetect(const ILint *HMatrix, ILint HScale, ILint HBias, const ILint *VMatrix, ILint VScale, ILint VBias)
 {
-	ILubyte		*HPass, *VPass;
+	ILimage		*Image;
+	ILubyte		*HPass, *VPass, *RegionMask;
 	ILuint		i;
-	ILboolean	Palette = IL_FALSE, Converted = IL_FALSE;
-	ILenum		Type = 0;
+	ILdouble	Val;
 
-	iluCurImage = ilGetCurImage();
-	if (iluCurImage == NULL) {
-		ilSetError(ILU_ILLEGAL_OPERATION);
+	Image = iFilterBegin();
+	if (Image == NULL)
 		return IL_FALSE;
-	}
-
-	if (iluCurImage->Format == IL_COLOUR_INDEX) {
-		Palette = IL_TRUE;
-		ilConvertImage(ilGetPalBaseType(iluCurImage->Pal.PalType), IL_UNSIGNED_BYTE);
-	}
-	else if (iluCurImage->Type > IL_UNSIGNED_BYTE) {
-		Converted = IL_TRUE;
-		Type = iluCurImage->Type;
-		ilConvertImage(iluCurImage->Format, IL_UNSIGNED_BYTE);
-	}
 
-	HPass = Filter(iluCurImage, filter_h_sobel, filter_h_sobel_scale, filter_h_sobel_bias);
-	VPass = Filter(iluCurImage, filter_v_sobel, filter_v_sobel_scale, filter_v_sobel_bias);
-	if (!HPass || !VPass) {
+	HPass = Filter(Image, HMatrix, HScale, HBias);
+	VPass = Filter(Image, VMatrix, VScale, VBias);
+	if (!HPass || !VPass || !iScanFill(&RegionMask)) {
 		ifree(HPass);
 		ifree(VPass);
-		return IL_FALSE;
+		return iFilterEnd(Image, IL_FALSE);
 	}
 
 	// Combine the two passes
-	//	Optimization by Matt Denham
-	for (i = 0; i < iluCurImage->SizeOfData; i++) {
-		if (HPass[i] == 0)
-			iluCurImage->Data[i] = VPass[i];
-		else if (VPass[i] == 0)
-			iluCurImage->Data[i] = HPass[i];
-		else
-			iluCurImage->Data[i] = (ILubyte)sqrt((float)(HPass[i]*HPass[i]+VPass[i]*VPass[i]));
+	for (i = 0; i < Image->SizeOfData; i++) {
+		if (RegionMask && !RegionMask[i / Image->Bpp])
+			continue;
+		Val = sqrt((ILdouble)(HPass[i]*HPass[i]+VPass[i]*VPass[i]));
+		Image->Data[i] = (ILubyte)IL_MIN(Val, 255.0);
 	}
 
-	/*for (i = 0; i < iluCurImage->SizeOfData; i++) {
-		iluCurImage->Data[i] = (ILubyte)sqrt(HPass[i]*HPass[i]+VPass[i]*VPass[i]);
-	}*/
-	
 	ifree(HPass);
 	ifree(VPass);
+	ifree(RegionMask);
 
-	if (Palette)
-		ilConvertImage(IL_COLOUR_INDEX, IL_UNSIGNED_BYTE);
-	else if (Converted)
-		ilConvertImage(iluCurImage->Format, Type);
-
-	return IL_TRUE;
+	return iFilterEnd(Image, IL_TRUE);
 }
 
 
-ILboolean ILAPIENTRY iluBlurAvg(ILuint Iter)
+ILboolean ILAPIENTRY iluEdgeDetectP()
 {
-	ILubyte		*Data;
-	ILuint		i;
-	ILboolean	Palette = IL_FALSE, Converted = IL_FALSE;
-	ILenum		Type = 0;
-
-	iluCurImage = ilGetCurImage();
-	if (iluCurImage == NULL) {
-		ilSetError(ILU_ILLEGAL_OPERATION);
-		return IL_FALSE;
-	}
+	return iEdgeDetect(filter_h_prewitt, filter_h_prewitt_scale, filter_h_prewitt_bias,
+		filter_v_prewitt, filter_v_prewitt_scale, filter_v_prewitt_bias);
+}
 
-	if (iluCurImage->Format == IL_COLOUR_INDEX) {
-		Palette = IL_TRUE;
-		ilConvertImage(ilGetPalBaseType(iluCurImage->Pal.PalType), IL_UNSIGNED_BYTE);
-	}
-	else if (iluCurImage->Type > IL_UNSIGNED_BYTE) {
-		Converted = IL_TRUE;
-		Type = iluCurImage->Type;
-		ilConvertImage(iluCurImage->Format, IL_UNSIGNED_BYTE);
-	}
 
-	for (i = 0; i < Iter; i++) {
-		Data = Filter(iluCurImage, filter_average, filter_average_scale, filter_average_bias);
-		if (!Data)
-			return IL_FALSE;
-		ifree(iluCurImage->Data);
-		iluCurImage->Data = Data;
-	}
+ILboolean ILAPIENTRY iluEdgeDetectS()
+{
+	return iEdgeDetect(filter_h_sobel, filter_h_sobel_scale, filter_h_sobel_bias,
+		filter_v_sobel, filter_v_sobel_scale, filter_v_sobel_bias);
+}
 
-	if (Palette)
-		ilConvertImage(IL_COLOUR_INDEX, IL_UNSIGNED_BYTE);
-	else if (Converted)
-		ilConvertImage(iluCurImage->Format, Type);
 
-	return IL_TRUE;
+ILboolean ILAPIENTRY iluBlurAvg(ILuint Iter)
+{
+	return iFilterImage(filter_average, filter_average_scale, filter_average_bias, Iter);
 }
 
 
 ILboolean ILAPIENTRY iluBlurGaussian(ILuint Iter)
 {
-	ILubyte		*Data;
-	ILuint		i;
-	ILboolean	Palette = IL_FALSE, Converted = IL_FALSE;
-	ILenum		Type = 0;
-
-	iluCurImage = ilGetCurImage();
-	if (iluCurImage == NULL) {
-		ilSetError(ILU_ILLEGAL_OPERATION);
-		return IL_FALSE;
-	}
-
-	if (iluCurImage->Format == IL_COLOUR_INDEX) {
-		Palette = IL_TRUE;
-		ilConvertImage(ilGetPalBaseType(iluCurImage->Pal.PalType), IL_UNSIGNED_BYTE);
-	}
-	else if (iluCurImage->Type > IL_UNSIGNED_BYTE) {
-		Converted = IL_TRUE;
-		Type = iluCurImage->Type;
-		ilConvertImage(iluCurImage->Format, IL_UNSIGNED_BYTE);
-	}
-
-	for (i = 0; i < Iter; i++) {
-		Data = Filter(iluCurImage, filter_gaussian, filter_gaussian_scale, filter_gaussian_bias );
-		if (!Data)
-			return IL_FALSE;
-		ifree(iluCurImage->Data);
-		iluCurImage->Data = Data;
-	}
-
-	if (Palette)
-		ilConvertImage(IL_COLOUR_INDEX, IL_UNSIGNED_BYTE);
-	else if (Converted)
-		ilConvertImage(iluCurImage->Format, Type);
-
-	return IL_TRUE;
+	return iFilterImage(filter_gaussian, filter_gaussian_scale, filter_gaussian_bias, Iter);
 }
 
 
 ILboolean ILAPIENTRY iluEmboss()
 {
-	ILubyte		*Data;
-	ILboolean	Palette = IL_FALSE, Converted = IL_FALSE;
-	ILenum		Type = 0;
-
-	iluCurImage = ilGetCurImage();
-	if (iluCurImage == NULL) {
-		ilSetError(ILU_ILLEGAL_OPERATION);
-		return IL_FALSE;
-	}
-
-	if (iluCurImage->Format == IL_COLOUR_INDEX) {
-		Palette = IL_TRUE;
-		ilConvertImage(ilGetPalBaseType(iluCurImage->Pal.PalType), IL_UNSIGNED_BYTE);
-	}
-	else if (iluCurImage->Type > IL_UNSIGNED_BYTE) {
-		Converted = IL_TRUE;
-		Type = iluCurImage->Type;
-		ilConvertImage(iluCurImage->Format, IL_UNSIGNED_BYTE);
-	}
-
-	Data = Filter(iluCurImage, filter_emboss, filter_emboss_scale, filter_emboss_bias);
-	if (!Data)
-		return IL_FALSE;
-	ifree(iluCurImage->Data);
-	iluCurImage->Data = Data;
-
-	if (Palette)
-		ilConvertImage(IL_COLOUR_INDEX, IL_UNSIGNED_BYTE);
-	else if (Converted)
-		ilConvertImage(iluCurImage->Format, Type);
-
-	return IL_TRUE;
+	return iFilterImage(filter_emboss, filter_emboss_scale, filter_emboss_bias, 1);
 }
 
 /*ILboolean ILAPIENTRY iluEmboss()
@@ -677,107 +359,179 @@ ILboolean ILAPIENTRY iluEmboss()
 
 ILboolean ILAPIENTRY iluEdgeDetectE()
 {
-	ILubyte		*Data;
-	ILboolean	Palette = IL_FALSE, Converted = IL_FALSE;
-	ILenum		Type = 0;
+	return iFilterImage(filter_embossedge, filter_embossedge_scale, filter_embossedge_bias, 1);
+}
 
-	iluCurImage = ilGetCurImage();
-	if (iluCurImage == NULL) {
-		ilSetError(ILU_ILLEGAL_OPERATION);
-		return IL_FALSE;
-	}
 
-	if (iluCurImage->Format == IL_COLOUR_INDEX) {
-		Palette = IL_TRUE;
-		ilConvertImage(ilGetPalBaseType(iluCurImage->Pal.PalType), IL_UNSIGNED_BYTE);
+// Something done with a colour: red, green, blue (all the luminance in grey images) and alpha from 0 to 1.
+typedef void (*iColourFunc)(ILdouble *Colour, const void *Arg);
+
+template<class T> static T iStoreChan(ILdouble Val, ILdouble Min, ILdouble Max)
+{
+	Val = floor(Val * Max + 0.5);
+	if (!(Val > Min))
+		Val = Min;
+	else if (Val > Max)
+		Val = Max;
+	return (T)Val;
+}
+template<> ILfloat iStoreChan<ILfloat>(ILdouble Val, ILdouble, ILdouble) { return (ILfloat)Val; }
+template<> ILdouble iStoreChan<ILdouble>(ILdouble Val, ILdouble, ILdouble) { return Val; }
+
+// Pos: where red, green, blue and alpha are in a pixel, -1 if they are not there
+template<class T> static void iMapData(T *Data, ILuint NumPix, ILuint Bpp, const ILint *Pos, ILdouble Min, ILdouble Max, iColourFunc Func, const void *Arg)
+{
+	ILdouble	Colour[4], Old[4];
+	ILuint		i, c;
+
+	for (i = 0; i < NumPix; i++, Data += Bpp) {
+		for (c = 0; c < 4; c++)
+			Old[c] = Colour[c] = (Pos[c] < 0) ? 1.0 : Data[Pos[c]] / Max;
+		Func(Colour, Arg);
+		for (c = 0; c < 4; c++) {
+			if (Pos[c] < 0 || Colour[c] == Old[c] || (c > 0 && Pos[c] == Pos[0]))
+				continue;
+			Data[Pos[c]] = iStoreChan<T>(Colour[c], Min, Max);
+		}
 	}
-	else if (iluCurImage->Type > IL_UNSIGNED_BYTE) {
-		Converted = IL_TRUE;
-		Type = iluCurImage->Type;
-		ilConvertImage(iluCurImage->Format, IL_UNSIGNED_BYTE);
+}
+
+
+// Does something with all colours of an image or its palette.
+static ILboolean iMapColours(ILimage *Image, iColourFunc Func, const void *Arg)
+{
+	static const ILint	Rgb[4] = { 0, 1, 2, -1 }, Rgba[4] = { 0, 1, 2, 3 }, Bgr[4] = { 2, 1, 0, -1 }, Bgra[4] = { 2, 1, 0, 3 },
+						Lum[4] = { 0, 0, 0, -1 }, LumAlpha[4] = { 0, 0, 0, 1 }, Alpha[4] = { -1, -1, -1, 0 };
+	const ILint			*Pos;
+	ILuint				NumPix = Image->Width * Image->Height * Image->Depth;
+
+	switch (Image->Format == IL_COLOUR_INDEX ? Image->Pal.PalType : Image->Format)
+	{
+		case IL_RGB:
+		case IL_PAL_RGB24:
+		case IL_PAL_RGB32:
+			Pos = Rgb;
+			break;
+		case IL_RGBA:
+		case IL_PAL_RGBA32:
+			Pos = Rgba;
+			break;
+		case IL_BGR:
+		case IL_PAL_BGR24:
+		case IL_PAL_BGR32:
+			Pos = Bgr;
+			break;
+		case IL_BGRA:
+		case IL_PAL_BGRA32:
+			Pos = Bgra;
+			break;
+		case IL_LUMINANCE:
+			Pos = Lum;
+			break;
+		case IL_LUMINANCE_ALPHA:
+			Pos = LumAlpha;
+			break;
+		case IL_ALPHA:
+			Pos = Alpha;
+			break;
+		default:
+			ilSetError(ILU_ILLEGAL_OPERATION);
+			return IL_FALSE;
 	}
 
-	Data = Filter(iluCurImage, filter_embossedge, filter_embossedge_scale, filter_embossedge_bias);
-	if (!Data)
-		return IL_FALSE;
-	ifree(iluCurImage->Data);
-	iluCurImage->Data = Data;
+	if (Image->Format == IL_COLOUR_INDEX) {
+		if (Image->Pal.Palette == NULL) {
+			ilSetError(ILU_ILLEGAL_OPERATION);
+			return IL_FALSE;
+		}
+		iMapData<ILubyte>(Image->Pal.Palette, Image->Pal.PalSize / ilGetBppPal(Image->Pal.PalType), ilGetBppPal(Image->Pal.PalType), Pos, 0, UCHAR_MAX, Func, Arg);
+		return IL_TRUE;
+	}
 
-	if (Palette)
-		ilConvertImage(IL_COLOUR_INDEX, IL_UNSIGNED_BYTE);
-	else if (Converted)
-		ilConvertImage(iluCurImage->Format, Type);
+	switch (Image->Type)
+	{
+		case IL_BYTE:
+			iMapData<ILbyte>((ILbyte*)Image->Data, NumPix, Image->Bpp, Pos, SCHAR_MIN, SCHAR_MAX, Func, Arg);
+			break;
+		case IL_UNSIGNED_BYTE:
+			iMapData<ILubyte>(Image->Data, NumPix, Image->Bpp, Pos, 0, UCHAR_MAX, Func, Arg);
+			break;
+		case IL_SHORT:
+			iMapData<ILshort>((ILshort*)Image->Data, NumPix, Image->Bpp, Pos, SHRT_MIN, SHRT_MAX, Func, Arg);
+			break;
+		case IL_UNSIGNED_SHORT:
+			iMapData<ILushort>((ILushort*)Image->Data, NumPix, Image->Bpp, Pos, 0, USHRT_MAX, Func, Arg);
+			break;
+		case IL_INT:
+			iMapData<ILint>((ILint*)Image->Data, NumPix, Image->Bpp, Pos, INT_MIN, INT_MAX, Func, Arg);
+			break;
+		case IL_UNSIGNED_INT:
+			iMapData<ILuint>((ILuint*)Image->Data, NumPix, Image->Bpp, Pos, 0, UINT_MAX, Func, Arg);
+			break;
+		case IL_FLOAT:
+			iMapData<ILfloat>((ILfloat*)Image->Data, NumPix, Image->Bpp, Pos, 0, 1, Func, Arg);
+			break;
+		case IL_DOUBLE:
+			iMapData<ILdouble>((ILdouble*)Image->Data, NumPix, Image->Bpp, Pos, 0, 1, Func, Arg);
+			break;
+		default:
+			ilSetError(ILU_ILLEGAL_OPERATION);
+			return IL_FALSE;
+	}
 
 	return IL_TRUE;
 }
 
-ILboolean ILAPIENTRY iluScaleAlpha(ILfloat scale)
+
+static void iScaleAlphaFunc(ILdouble *Colour, const void *Arg)
 {
-	ILuint		i;
-	ILint		alpha;
+	Colour[3] *= *(const ILfloat*)Arg;
+}
 
+
+ILboolean ILAPIENTRY iluScaleAlpha(ILfloat scale)
+{
 	iluCurImage = ilGetCurImage();
 	if (iluCurImage == NULL) {
 		ilSetError(ILU_ILLEGAL_OPERATION);
 		return IL_FALSE;
 	}
 
-	if( (iluCurImage->Format != IL_COLOUR_INDEX) && (iluCurImage->Type != IL_BYTE) ) {
-		ilSetError(ILU_ILLEGAL_OPERATION);
-		return IL_FALSE;
-	}
-
 	switch (iluCurImage->Format)
 	{
 		case IL_BGRA:
 		case IL_RGBA:
-			for (i = 0; i < iluCurImage->SizeOfData; i += iluCurImage->Bpp) {
-				alpha = (ILint)(iluCurImage->Data[i+3] * scale);
-				if (alpha > UCHAR_MAX) alpha = UCHAR_MAX;
-				if (alpha < 0) alpha = 0;
-				iluCurImage->Data[i+3] = (ILubyte)alpha;
-			}
-			break;
+		case IL_LUMINANCE_ALPHA:
+		case IL_ALPHA:
+			return iMapColours(iluCurImage, iScaleAlphaFunc, &scale);
 
 		case IL_COLOUR_INDEX:
-			switch (iluCurImage->Pal.PalType)
-			{
-				case IL_PAL_RGBA32:
-				case IL_PAL_BGRA32:
-					for (i = 0; i < iluCurImage->Pal.PalSize; i += ilGetInteger(IL_PALETTE_BPP)) {
-						alpha = (ILint)(iluCurImage->Pal.Palette[i+3] * scale);
-						if (alpha > UCHAR_MAX) alpha = UCHAR_MAX;
-						if (alpha < 0) alpha = 0;
-						iluCurImage->Pal.Palette[i+3] = (ILubyte)alpha;
-					}
-					break;
-
-				default:
-					ilSetError(ILU_ILLEGAL_OPERATION);
-					return IL_FALSE;
-			}
+			if (iluCurImage->Pal.PalType == IL_PAL_RGBA32 || iluCurImage->Pal.PalType == IL_PAL_BGRA32)
+				return iMapColours(iluCurImage, iScaleAlphaFunc, &scale);
 			break;
-
-		default:
-			ilSetError(ILU_ILLEGAL_OPERATION);
-			return IL_FALSE;
 	}
 
-	return IL_TRUE;
+	ilSetError(ILU_ILLEGAL_OPERATION);
+	return IL_FALSE;
 }
 
 // Everything here was taken from "Grafica Obscura",
 //	found at http://www.sgi.com/grafica/matrix/index.html
 
 
-// @TODO:  fast float to byte
+static void iScaleColoursFunc(ILdouble *Colour, const void *Arg)
+{
+	const ILfloat *Scale = (const ILfloat*)Arg;
+
+	Colour[0] *= Scale[0];
+	Colour[1] *= Scale[1];
+	Colour[2] *= Scale[2];
+}
+
+
 //! Scales image colours
 ILboolean ILAPIENTRY iluScaleColours(ILfloat r, ILfloat g, ILfloat b) {
-	ILuint		i;
-	ILint		red, grn, blu, grey;
-	ILushort	*ShortPtr;
-	ILuint		*IntPtr, NumPix;
-	ILdouble	*DblPtr;
+	ILfloat Scale[3] = { r, g, b };
 
 	iluCurImage = ilGetCurImage();
 	if (iluCurImage == NULL) {
@@ -785,144 +539,12 @@ ILboolean ILAPIENTRY iluScaleColours(ILfloat r, ILfloat g, ILfloat b) {
 		return IL_FALSE;
 	}
 
-	if( (iluCurImage->Format != IL_COLOUR_INDEX) && (iluCurImage->Type != IL_BYTE) ) {
+	if (iluCurImage->Format == IL_ALPHA) {
 		ilSetError(ILU_ILLEGAL_OPERATION);
 		return IL_FALSE;
 	}
 
-	switch (iluCurImage->Format)
-	{
-		case IL_RGB:
-		case IL_RGBA:
-			for (i = 0; i < iluCurImage->SizeOfData; i += iluCurImage->Bpp) {
-				red = (ILint)(iluCurImage->Data[i] * r);
-				grn = (ILint)(iluCurImage->Data[i+1] * g);
-				blu = (ILint)(iluCurImage->Data[i+2] * b);
-				if (red > UCHAR_MAX) red = UCHAR_MAX;
-				if (red < 0) red = 0;
-				if (grn > UCHAR_MAX) grn = UCHAR_MAX;
-				if (grn < 0) grn = 0;
-				if (blu > UCHAR_MAX) blu = UCHAR_MAX;
-				if (blu < 0) blu = 0;
-				iluCurImage->Data[i]   = (ILubyte)red;
-				iluCurImage->Data[i+1] = (ILubyte)grn;
-				iluCurImage->Data[i+2] = (ILubyte)blu;
-			}
-			break;
-
-		case IL_BGR:
-		case IL_BGRA:
-			for (i = 0; i < iluCurImage->SizeOfData; i += iluCurImage->Bpp) {
-				red = (ILint)(iluCurImage->Data[i+2] * r);
-				grn = (ILint)(iluCurImage->Data[i+1] * g);
-				blu = (ILint)(iluCurImage->Data[i] * b);
-				if (red > UCHAR_MAX) red = UCHAR_MAX;
-				if (red < 0) red = 0;
-				if (grn > UCHAR_MAX) grn = UCHAR_MAX;
-				if (grn < 0) grn = 0;
-				if (blu > UCHAR_MAX) blu = UCHAR_MAX;
-				if (blu < 0) blu = 0;
-				iluCurImage->Data[i+2] = (ILubyte)red;
-				iluCurImage->Data[i+1] = (ILubyte)grn;
-				iluCurImage->Data[i]   = (ILubyte)blu;
-			}
-			break;
-
-		case IL_LUMINANCE:
-		case IL_LUMINANCE_ALPHA:
-			NumPix = iluCurImage->SizeOfData / (iluCurImage->Bpc*iluCurImage->Bpp);
-			switch (iluCurImage->Bpc) {
-				case 1:
-					for (i = 0; i < NumPix; i+=iluCurImage->Bpp) {
-						grey = (ILint)(iluCurImage->Data[i] * r);
-						if (grey > UCHAR_MAX) grey = UCHAR_MAX;
-						if (grey < 0) grey = 0;
-						iluCurImage->Data[i] = (ILubyte)grey;
-					}
-					break;
-
-				case 2:
-					ShortPtr = (ILushort*)iluCurImage->Data;
-					for (i = 0; i < NumPix; i+=iluCurImage->Bpp) {
-						grey = (ILint)(ShortPtr[i] * r);
-						if (grey > USHRT_MAX) grey = USHRT_MAX;
-						if (grey < 0) grey = 0;
-						ShortPtr[i] = (ILushort)grey;
-					}
-					break;
-
-				case 4:
-					IntPtr = (ILuint*)iluCurImage->Data;
-					for (i = 0; i < NumPix; i+=iluCurImage->Bpp) {
-						grey = (ILint)(IntPtr[i] * r);
-						if (grey < 0) grey = 0;
-						IntPtr[i] = (ILuint)grey;
-					}
-					break;
-
-				case 8:
-					DblPtr = (ILdouble*)iluCurImage->Data;
-					for (i = 0; i < NumPix; i+=iluCurImage->Bpp) {
-						DblPtr[i] = DblPtr[i] * r;
-					}
-					break;
-			}
-			break;
-
-		case IL_COLOUR_INDEX:
-			switch (iluCurImage->Pal.PalType)
-			{
-				case IL_PAL_RGB24:
-				case IL_PAL_RGB32:
-				case IL_PAL_RGBA32:
-					for (i = 0; i < iluCurImage->Pal.PalSize; i += ilGetInteger(IL_PALETTE_BPP)) {
-						red = (ILint)(iluCurImage->Pal.Palette[i] * r);
-						grn = (ILint)(iluCurImage->Pal.Palette[i+1] * g);
-						blu = (ILint)(iluCurImage->Pal.Palette[i+2] * b);
-						if (red > UCHAR_MAX) red = UCHAR_MAX;
-						if (red < 0) red = 0;
-						if (grn > UCHAR_MAX) grn = UCHAR_MAX;
-						if (grn < 0) grn = 0;
-						if (blu > UCHAR_MAX) blu = UCHAR_MAX;
-						if (blu < 0) blu = 0;
-						iluCurImage->Pal.Palette[i]   = (ILubyte)red;
-						iluCurImage->Pal.Palette[i+1] = (ILubyte)grn;
-						iluCurImage->Pal.Palette[i+2] = (ILubyte)blu;
-					}
-					break;
-
-				case IL_PAL_BGR24:
-				case IL_PAL_BGR32:
-				case IL_PAL_BGRA32:
-					for (i = 0; i < iluCurImage->Pal.PalSize; i += ilGetInteger(IL_PALETTE_BPP)) {
-						red = (ILint)(iluCurImage->Pal.Palette[i+2] * r);
-						grn = (ILint)(iluCurImage->Pal.Palette[i+1] * g);
-						blu = (ILint)(iluCurImage->Pal.Palette[i] * b);
-						if (red > UCHAR_MAX) red = UCHAR_MAX;
-						if (red < 0) red = 0;
-						if (grn > UCHAR_MAX) grn = UCHAR_MAX;
-						if (grn < 0) grn = 0;
-						if (blu > UCHAR_MAX) blu = UCHAR_MAX;
-						if (blu < 0) blu = 0;
-						iluCurImage->Pal.Palette[i+2]   = (ILubyte)red;
-						iluCurImage->Pal.Palette[i+1] = (ILubyte)grn;
-						iluCurImage->Pal.Palette[i] = (ILubyte)blu;
-					}
-					break;
-
-
-				default:
-					ilSetError(ILU_ILLEGAL_OPERATION);
-					return IL_FALSE;
-			}
-			break;
-
-		default:
-			ilSetError(ILU_ILLEGAL_OPERATION);
-			return IL_FALSE;
-	}
-
-	return IL_TRUE;
+	return iMapColours(iluCurImage, iScaleColoursFunc, Scale);
 }
 
 
@@ -932,12 +554,20 @@ ILboolean ILAPIENTRY iluScaleColours(ILfloat r, ILfloat g, ILfloat b) {
 }*/
 
 
+static void iGammaFunc(ILdouble *Colour, const void *Arg)
+{
+	ILuint c;
+
+	for (c = 0; c < 3; c++) {
+		if (Colour[c] > 0.0)
+			Colour[c] = pow(Colour[c], *(const ILdouble*)Arg);
+	}
+}
+
+
 ILboolean ILAPIENTRY iluGammaCorrect(ILfloat Gamma)
 {
-	ILfloat		Table[256];
-	ILuint		i, NumPix;
-	ILushort	*ShortPtr;
-	ILuint		*IntPtr;
+	ILdouble Exponent;
 
 	iluCurImage = ilGetCurImage();
 	if (iluCurImage == NULL) {
@@ -945,43 +575,13 @@ ILboolean ILAPIENTRY iluGammaCorrect(ILfloat Gamma)
 		return IL_FALSE;
 	}
 
-	for (i = 0; i < 256; i++) {
-		Table[i] = (ILfloat)pow(i / 255.0, 1.0 / Gamma);
-	}
-
-	// Do we need to clamp here?
-	if (iluCurImage->Format == IL_COLOUR_INDEX) {
-		for (i = 0; i < iluCurImage->Pal.PalSize; i++) {
-			iluCurImage->Pal.Palette[i] = (ILubyte)(Table[iluCurImage->Pal.Palette[i]] * 255);
-		}
-	}
-	else {
-		// Not too sure if this is the correct way of handling multiple bpc's.
-		switch (iluCurImage->Bpc)
-		{
-			case 1:
-				for (i = 0; i < iluCurImage->SizeOfData; i++) {
-					iluCurImage->Data[i] = (ILubyte)(Table[iluCurImage->Data[i]] * UCHAR_MAX);
-				}
-				break;
-			case 2:
-				NumPix = iluCurImage->SizeOfData / 2;
-				ShortPtr = (ILushort*)iluCurImage->Data;
-				for (i = 0; i < NumPix; i++) {
-					ShortPtr[i] = (ILushort)(Table[ShortPtr[i] >> 8] * USHRT_MAX);
-				}
-				break;
-			case 4:
-				NumPix = iluCurImage->SizeOfData / 4;
-				IntPtr = (ILuint*)iluCurImage->Data;
-				for (i = 0; i < NumPix; i++) {
-					IntPtr[i] = (ILuint)(Table[IntPtr[i] >> 24] * UINT_MAX);
-				}
-				break;
-		}
+	if (!(Gamma > 0.0f)) {
+		ilSetError(ILU_INVALID_PARAM);
+		return IL_FALSE;
 	}
+	Exponent = 1.0 / Gamma;
 
-	return IL_TRUE;
+	return iMapColours(iluCurImage, iGammaFunc, &Exponent);
 }
 
 
@@ -991,73 +591,30 @@ ILboolean ILAPIENTRY iluGammaCorrect(ILfloat Gamma)
 //
 
 
-void iApplyMatrix(ILimage *Image, ILfloat Mat[4][4])
+static void iMatrixFunc(ILdouble *Colour, const void *Arg)
 {
-	ILubyte	*Data = Image->Data;
-	ILuint	i;
-	ILubyte	r, g, b;
+	const ILfloat	(*Mat)[4] = (const ILfloat (*)[4])Arg;
+	ILdouble		Old[3] = { Colour[0], Colour[1], Colour[2] };
+	ILuint			c;
+
+	for (c = 0; c < 3; c++)
+		Colour[c] = Old[0] * Mat[0][c] + Old[1] * Mat[1][c] + Old[2] * Mat[2][c];// + Mat[3][c];
+}
 
+
+ILboolean iApplyMatrix(ILimage *Image, ILfloat Mat[4][4])
+{
 	switch (Image->Format)
 	{
 		case IL_RGB:
 		case IL_RGBA:
-			for (i = 0; i < Image->SizeOfData; ) {
-				r = (ILubyte)(Data[i] * Mat[0][0] + Data[i+1] * Mat[1][0] +
-									Data[i+2] * Mat[2][0]);// + Mat[3][0]);
-				g = (ILubyte)(Data[i] * Mat[0][1] + Data[i+1] * Mat[1][1] +
-									Data[i+2] * Mat[2][1]);// + Mat[3][1]);
-				b = (ILubyte)(Data[i] * Mat[0][2] + Data[i+1] * Mat[1][2] +
-									Data[i+2] * Mat[2][2]);// + Mat[3][2]);
-				Data[i]   = r;
-				Data[i+1] = g;
-				Data[i+2] = b;
-				i += Image->Bpp;
-			}
-			break;
-
 		case IL_BGR:
 		case IL_BGRA:
-			for (i = 0; i < Image->SizeOfData; ) {
-				r = (ILubyte)(Data[i] * Mat[0][2] + Data[i+1] * Mat[1][2] +
-									Data[i+2] * Mat[2][2]);// + Mat[3][2]);
-				g = (ILubyte)(Data[i] * Mat[0][1] + Data[i+1] * Mat[1][1] +
-									Data[i+2] * Mat[2][1]);// + Mat[3][1]);
-				b = (ILubyte)(Data[i] * Mat[0][0] + Data[i+1] * Mat[1][0] +
-									Data[i+2] * Mat[2][0]);// + Mat[3][0]);
-				Data[i]   = b;
-				Data[i+1] = g;
-				Data[i+2] = r;
-				i += Image->Bpp;
-			}
-			break;
-
-		default:
-			ilSetError(ILU_ILLEGAL_OPERATION);
-			return;
+			return iMapColours(Image, iMatrixFunc, Mat);
 	}
 
-	return;
-}
-
-
-void iIdentity(ILfloat *Matrix)
-{
-    *Matrix++ = 1.0;    // row 1
-    *Matrix++ = 0.0;
-    *Matrix++ = 0.0;
-    //*Matrix++ = 0.0;
-    *Matrix++ = 0.0;    // row 2
-    *Matrix++ = 1.0;
-    *Matrix++ = 0.0;
-    //*Matrix++ = 0.0;
-    *Matrix++ = 0.0;    // row 3
-    *Matrix++ = 0.0;
-    *Matrix++ = 1.0;
-    //*Matrix++ = 0.0;
-    /**Matrix++ = 0.0;    // row 4
-    *Matrix++ = 0.0;
-    *Matrix++ = 0.0;
-    *Matrix++ = 1.0;*/
+	ilSetError(ILU_ILLEGAL_OPERATION);
+	return IL_FALSE;
 }
 
 
@@ -1098,61 +655,37 @@ ILboolean ILAPIENTRY iluSaturate4f(ILfloat r, ILfloat g, ILfloat b, ILfloat Satu
 		return IL_FALSE;
 	}
 
-	iApplyMatrix(iluCurImage, Mat);
-
-	return IL_TRUE;
+	return iApplyMatrix(iluCurImage, Mat);
 }
 
 
 
+static void iAlienFunc(ILdouble *Colour, const void *)
+{
+	Colour[0] = Colour[2];
+}
+
+
 //! Funny as hell filter that I stumbled upon accidentally
 ILboolean ILAPIENTRY iluAlienify(void)
 {
-	ILfloat	Mat[3][3];
-	ILubyte	*Data;
-	ILuint	i;
-
 	iluCurImage = ilGetCurImage();
 	if (iluCurImage == NULL) {
 		ilSetError(ILU_ILLEGAL_OPERATION);
 		return IL_FALSE;
 	}
-	Data = iluCurImage->Data;
-
-	iIdentity((ILfloat*)Mat);
 
 	switch (iluCurImage->Format)
 	{
 		case IL_BGR:
 		case IL_BGRA:
-			for (i = 0; i < iluCurImage->SizeOfData; i += iluCurImage->Bpp) {
-				Data[i+2] = (ILubyte)(Data[i] * Mat[0][0] + Data[i+1] * Mat[1][0] +
-									Data[i+2] * Mat[2][0]);// + Mat[3][0]);
-				Data[i+1] = (ILubyte)(Data[i] * Mat[0][1] + Data[i+1] * Mat[1][1] +
-									Data[i+2] * Mat[2][1]);// + Mat[3][1]);
-				Data[i]   = (ILubyte)(Data[i] * Mat[0][2] + Data[i+1] * Mat[1][2] +
-									Data[i+2] * Mat[2][2]);// + Mat[3][2]);
-			}
-		break;
-
 		case IL_RGB:
 		case IL_RGBA:
-			for (i = 0; i < iluCurImage->SizeOfData; i += iluCurImage->Bpp) {
-				Data[i]   = (ILubyte)(Data[i] * Mat[0][2] + Data[i+1] * Mat[1][2] +
-									Data[i+2] * Mat[2][2]);// + Mat[3][2]);
-				Data[i+1] = (ILubyte)(Data[i] * Mat[0][1] + Data[i+1] * Mat[1][1] +
-									Data[i+2] * Mat[2][1]);// + Mat[3][1]);
-				Data[i+2] = (ILubyte)(Data[i] * Mat[0][0] + Data[i+1] * Mat[1][0] +
-									Data[i+2] * Mat[2][0]);// + Mat[3][0]);
-			}
-		break;
-
-		default:
-			//ilSetError(ILU_ILLEGAL_OPERATION);
-			return IL_FALSE;
+			return iMapColours(iluCurImage, iAlienFunc, NULL);
 	}
 
-	return IL_TRUE;
+	ilSetError(ILU_ILLEGAL_OPERATION);
+	return IL_FALSE;
 }
 
 
@@ -1164,28 +697,24 @@ ILboolean ILAPIENTRY iluAlienify(void)
 
 
 
-void iIntExtImg(ILimage *Image1, ILimage *Image2, ILfloat a)
+static void iIntExtData(const ILubyte *Data1, ILubyte *Data2, ILuint Size, ILfloat a)
 {
 	ILuint	i;
-	ILint	d;
-	ILubyte	*Data1, *Data2;
-
-	Data1 = Image1->Data;
-	Data2 = Image2->Data;
+	ILfloat	d;
 
-	for (i = 0; i < Image2->SizeOfData; i++) {
-		d = (ILint)((1 - a) * *Data1 + a * *Data2);
+	for (i = 0; i < Size; i++) {
+		if (Data1[i] == Data2[i])
+			continue;
+		d = (1 - a) * Data1[i] + a * Data2[i];
 		// Limit a pixel value to the range [0, 255]
-		if (d < 0) 
-			d = 0;
-		else if (d > 255)
-			d = 255;
-		*Data2 = d;
-
-		Data1++;
-		Data2++;
+		if (!(d > 0.0f))
+			Data2[i] = 0;
+		else if (d >= 255.0f)
+			Data2[i] = 255;
+		else
+			Data2[i] = (ILubyte)d;
 	}
-			
+
 	return;
 }
 
@@ -1219,32 +748,27 @@ void iIntExtImg(ILimage *Image1, ILimage *Image2, ILfloat a)
 }*/
 
 
+static void iContrastFunc(ILdouble *Colour, const void *Arg)
+{
+	const ILfloat	a = *(const ILfloat*)Arg;
+	ILuint			c;
+
+	// Away from grey
+	for (c = 0; c < 3; c++)
+		Colour[c] = (1 - a) * (127.0 / 255.0) + a * Colour[c];
+}
+
+
 // Works best when Contrast is in the range [-0.5, 1.7].
 ILboolean ILAPIENTRY iluContrast(ILfloat Contrast)
 {
-	ILimage	*Grey;
-	ILuint	i;
-
 	iluCurImage = ilGetCurImage();
 	if (iluCurImage == NULL) {
 		ilSetError(IL_ILLEGAL_OPERATION);
 		return IL_FALSE;
 	}
 
-	Grey = ilNewImage(iluCurImage->Width, iluCurImage->Height, iluCurImage->Depth, iluCurImage->Bpp, iluCurImage->Bpc);
-	if (Grey == NULL) {
-		return IL_FALSE;
-	}
-
-	// Make Grey all 127's
-	for (i = 0; i < Grey->SizeOfData; i++) {
-		Grey->Data[i] = 127;
-	}
-
-	iIntExtImg(Grey, iluCurImage, Contrast);
-	ilCloseImage(Grey);
-
-	return IL_TRUE;
+	return iMapColours(iluCurImage, iContrastFunc, &Contrast);
 }
 
 
@@ -1252,68 +776,35 @@ ILboolean ILAPIENTRY iluContrast(ILfloat Contrast)
 // Blurs when Factor is in the range [0.0, 1.0].
 ILboolean ILAPIENTRY iluSharpen(ILfloat Factor, ILuint Iter)
 {
-	ILimage	*Blur, *CurImage;  // iluBlur() changes iluCurImage
+	ILimage	*Image;
+	ILubyte	*Blur;
 	ILuint	i;
-	
-	CurImage = ilGetCurImage();
-	if (CurImage == NULL) {
-		ilSetError(ILU_ILLEGAL_OPERATION);
-		return IL_FALSE;
-	}
 
-	Blur = ilNewImage(CurImage->Width, CurImage->Height, CurImage->Depth, CurImage->Bpp, CurImage->Bpc);
-	if (Blur == NULL) {
+	Image = iFilterBegin();
+	if (Image == NULL)
 		return IL_FALSE;
-	}
-	ilCopyImageAttr(Blur, CurImage);
 
-	ilCopyPixels(0, 0, 0, CurImage->Width, CurImage->Height, 1, CurImage->Format, CurImage->Type, Blur->Data);
-	ilSetCurImage(Blur);
-	iluBlurGaussian(1);
+	Blur = Filter(Image, filter_gaussian, filter_gaussian_scale, filter_gaussian_bias);
+	if (Blur == NULL)
+		return iFilterEnd(Image, IL_FALSE);
 
 	for (i = 0; i < Iter; i++) {
-		iIntExtImg(Blur, CurImage, Factor);
+		iIntExtData(Blur, Image->Data, Image->SizeOfData, Factor);
 	}
 
-	ilCloseImage(Blur);
-	ilSetCurImage(CurImage);
+	ifree(Blur);
 
-	return IL_TRUE;
+	return iFilterEnd(Image, IL_TRUE);
 }
 
 
 ILAPI ILboolean ILAPIENTRY iluConvolution(ILint *matrix, ILint scale, ILint bias) {
-	ILubyte		*Data;
-	ILboolean	Palette = IL_FALSE, Converted = IL_FALSE;
-	ILenum		Type = 0;
-	ILimage		*iluCurImage = ilGetCurImage();
-	
-	if (iluCurImage == NULL) {
-		ilSetError(ILU_ILLEGAL_OPERATION);
+	if (matrix == NULL) {
+		ilSetError(ILU_INVALID_PARAM);
 		return IL_FALSE;
 	}
-	
-	if (iluCurImage->Format == IL_COLOUR_INDEX) {
-		Palette = IL_TRUE;
-		ilConvertImage(ilGetPalBaseType(iluCurImage->Pal.PalType), IL_UNSIGNED_BYTE);
-	} else if (iluCurImage->Type > IL_UNSIGNED_BYTE) {
-		Converted = IL_TRUE;
-		Type = iluCurImage->Type;
-		ilConvertImage(iluCurImage->Format, IL_UNSIGNED_BYTE);
-	}
-	
-	Data = Filter(iluCurImage, matrix, scale, bias);
-	if (!Data)
-		return IL_FALSE;
-	ifree(iluCurImage->Data);
-	iluCurImage->Data = Data;
-	
-	if (Palette)
-		ilConvertImage(IL_COLOUR_INDEX, IL_UNSIGNED_BYTE);
-	else if (Converted)
-		ilConvertImage(iluCurImage->Format, Type);
-	
-	return IL_TRUE;
+
+	return iFilterImage(matrix, scale, bias, 1);
 }
 
 
@@ -1373,7 +864,7 @@ ILboolean ILAPIENTRY iluSepia(void)
 		break;
 
 		default:
-			//ilSetError(ILU_ILLEGAL_OPERATION);
+			ilSetError(ILU_ILLEGAL_OPERATION);
 			return IL_FALSE;
 	}
 
diff --git a/DevIL/src-ILU/src/ilu_manip.cpp b/DevIL/src-ILU/src/ilu_manip.cpp
index e719ab3..e4b5c93 100644
--- a/DevIL/src-ILU/src/ilu_manip.cpp
+++ b/DevIL/src-ILU/src/ilu_manip.cpp
@@ -286,7 +286,8 @@ ILboolean ILAPIENTRY iluNegative()
 		return IL_TRUE;
 	}
 
-	RegionMask = iScanFill();
+	if (!iScanFill(&RegionMask))
+		return IL_FALSE;
 
 	// @TODO:  Optimize this some.
 
diff --git a/DevIL/src-ILU/src/ilu_noise.cpp b/DevIL/src-ILU/src/ilu_noise.cpp
index 90375b2..60acabd 100644
--- a/DevIL/src-ILU/src/ilu_noise.cpp
+++ b/DevIL/src-ILU/src/ilu_noise.cpp
@@ -15,17 +15,41 @@
 #include <math.h>
 //#include <time.h>
 #include <limits.h>
+#include <float.h>
+
+
+// Adds the same random value to all colour channels of a pixel.
+template<class T> static void iAddNoise(ILimage *Image, const ILubyte *RegionMask, ILdouble Factor, ILdouble Min, ILdouble Max)
+{
+	T			*Data = (T*)Image->Data;
+	ILuint		i, c, NumPix, NumChans = Image->Bpp;
+	ILdouble	Val, New;
+
+	if (Image->Format == IL_RGBA || Image->Format == IL_BGRA || Image->Format == IL_LUMINANCE_ALPHA || Image->Format == IL_ALPHA)
+		NumChans--;  // Alpha is not a colour.
+	NumPix = Image->Width * Image->Height * Image->Depth;
+
+	for (i = 0; i < NumPix; i++, Data += Image->Bpp) {
+		if (RegionMask && !RegionMask[i])
+			continue;
+		Val = (rand() / (RAND_MAX + 1.0) * 2.0 - 1.0) * Factor;
+		if (Factor >= 1.0)  // Integers
+			Val = floor(Val);
+		for (c = 0; c < NumChans; c++) {
+			New = Data[c] + Val;
+			Data[c] = (T)(New < Min ? Min : New > Max ? Max : New);
+		}
+	}
+}
 
 
 // Very simple right now.
 //	This will probably use Perlin noise and parameters in the future.
 ILboolean ILAPIENTRY iluNoisify(ILclampf Tolerance)
 {
-	ILuint		i, j, c, Factor, Factor2, NumPix;
-	ILint		Val;
-	ILushort	*ShortPtr;
-	ILuint		*IntPtr;
+	ILimage		*Image;
 	ILubyte		*RegionMask;
+	ILboolean	bRet = IL_TRUE;
 
 	iluCurImage = ilGetCurImage();
 	if (iluCurImage == NULL) {
@@ -33,84 +57,63 @@ ILboolean ILAPIENTRY iluNoisify(ILclampf Tolerance)
 		return IL_FALSE;
 	}
 
-	RegionMask = iScanFill();
+	if (!(Tolerance > 0.0f))
+		return IL_TRUE;
+	if (Tolerance > 1.0f)
+		Tolerance = 1.0f;
+
+	// The colours of an indexed image are not those of its data.
+	Image = iluCurImage;
+	if (iluCurImage->Format == IL_COLOUR_INDEX) {
+		Image = iFilterBegin();
+		if (Image == NULL)
+			return IL_FALSE;
+	}
+	if (!iScanFill(&RegionMask))
+		return iFilterEnd(Image, IL_FALSE);
 
 	// @TODO:  Change this to work correctly without time()!
 	//srand(time(NULL));
-	NumPix = iluCurImage->SizeOfData / iluCurImage->Bpc;
-
-	switch (iluCurImage->Bpc)
+	switch (Image->Type)
 	{
-		case 1:
-			Factor = (ILubyte)(Tolerance * (UCHAR_MAX / 2));
-			if (Factor == 0)
-				return IL_TRUE;
-			Factor2 = Factor + Factor;
-			for (i = 0, j = 0; i < NumPix; i += iluCurImage->Bpp, j++) {
-				if (RegionMask) {
-					if (!RegionMask[j])
-						continue;
-				}
-				Val = (ILint)((ILint)(rand() % Factor2) - Factor);
-				for (c = 0; c < iluCurImage->Bpp; c++) {
-					if ((ILint)iluCurImage->Data[i + c] + Val > UCHAR_MAX)
-						iluCurImage->Data[i + c] = UCHAR_MAX;
-					else if ((ILint)iluCurImage->Data[i + c] + Val < 0)
-						iluCurImage->Data[i + c] = 0;
-					else
-						iluCurImage->Data[i + c] += Val;
-				}
-			}
+		case IL_BYTE:
+			if ((ILint)(Tolerance * (UCHAR_MAX / 2)) > 0)
+				iAddNoise<ILbyte>(Image, RegionMask, (ILint)(Tolerance * (UCHAR_MAX / 2)), SCHAR_MIN, SCHAR_MAX);
 			break;
-		case 2:
-			Factor = (ILushort)(Tolerance * (USHRT_MAX / 2));
-			if (Factor == 0)
-				return IL_TRUE;
-			Factor2 = Factor + Factor;
-			ShortPtr = (ILushort*)iluCurImage->Data;
-			for (i = 0, j = 0; i < NumPix; i += iluCurImage->Bpp, j++) {
-				if (RegionMask) {
-					if (!RegionMask[j])
-						continue;
-				}
-				Val = (ILint)((ILint)(rand() % Factor2) - Factor);
-				for (c = 0; c < iluCurImage->Bpp; c++) {
-					if ((ILint)ShortPtr[i + c] + Val > USHRT_MAX)
-						ShortPtr[i + c] = USHRT_MAX;
-					else if ((ILint)ShortPtr[i + c] + Val < 0)
-						ShortPtr[i + c] = 0;
-					else
-						ShortPtr[i + c] += Val;
-				}
-			}
+		case IL_UNSIGNED_BYTE:
+			if ((ILint)(Tolerance * (UCHAR_MAX / 2)) > 0)
+				iAddNoise<ILubyte>(Image, RegionMask, (ILint)(Tolerance * (UCHAR_MAX / 2)), 0, UCHAR_MAX);
 			break;
-		case 4:
-			Factor = (ILuint)(Tolerance * (UINT_MAX / 2));
-			if (Factor == 0)
-				return IL_TRUE;
-			Factor2 = Factor + Factor;
-			IntPtr = (ILuint*)iluCurImage->Data;
-			for (i = 0, j = 0; i < NumPix; i += iluCurImage->Bpp, j++) {
-				if (RegionMask) {
-					if (!RegionMask[j])
-						continue;
-				}
-				Val = (ILint)((ILint)(rand() % Factor2) - Factor);
-				for (c = 0; c < iluCurImage->Bpp; c++) {
-					if (IntPtr[i + c] + Val > UINT_MAX)
-						IntPtr[i + c] = UINT_MAX;
-					else if ((ILint)IntPtr[i + c] + Val < 0)
-						IntPtr[i + c] = 0;
-					else
-						IntPtr[i + c] += Val;
-				}
-			}
+		case IL_SHORT:
+			if ((ILint)(Tolerance * (USHRT_MAX / 2)) > 0)
+				iAddNoise<ILshort>(Image, RegionMask, (ILint)(Tolerance * (USHRT_MAX / 2)), SHRT_MIN, SHRT_MAX);
+			break;
+		case IL_UNSIGNED_SHORT:
+			if ((ILint)(Tolerance * (USHRT_MAX / 2)) > 0)
+				iAddNoise<ILushort>(Image, RegionMask, (ILint)(Tolerance * (USHRT_MAX / 2)), 0, USHRT_MAX);
+			break;
+		case IL_INT:
+			if ((ILdouble)Tolerance * (UINT_MAX / 2) >= 1.0)
+				iAddNoise<ILint>(Image, RegionMask, floor((ILdouble)Tolerance * (UINT_MAX / 2)), INT_MIN, INT_MAX);
 			break;
+		case IL_UNSIGNED_INT:
+			if ((ILdouble)Tolerance * (UINT_MAX / 2) >= 1.0)
+				iAddNoise<ILuint>(Image, RegionMask, floor((ILdouble)Tolerance * (UINT_MAX / 2)), 0, UINT_MAX);
+			break;
+		case IL_FLOAT:
+			iAddNoise<ILfloat>(Image, RegionMask, Tolerance * 0.5, -FLT_MAX, FLT_MAX);
+			break;
+		case IL_DOUBLE:
+			iAddNoise<ILdouble>(Image, RegionMask, Tolerance * 0.5, -DBL_MAX, DBL_MAX);
+			break;
+		default:
+			ilSetError(ILU_ILLEGAL_OPERATION);
+			bRet = IL_FALSE;
 	}
 
 	ifree(RegionMask);
 
-	return IL_TRUE;
+	return iFilterEnd(Image, bRet);
 }
 
 
diff --git a/DevIL/src-ILU/src/ilu_region.cpp b/DevIL/src-ILU/src/ilu_region.cpp
index 8d3fb15..5a7d41a 100644
--- a/DevIL/src-ILU/src/ilu_region.cpp
+++ b/DevIL/src-ILU/src/ilu_region.cpp
@@ -148,15 +148,16 @@ static ILuint iRowEdges(ILint Scan, ILdouble *Cross)
 
 
 // Returns a mask with 1 for every pixel inside the region, or NULL if there is no region.
-ILubyte *iScanFill()
+// Gives the mask of the current region, NULL if there is none.
+ILboolean iScanFill(ILubyte **Mask)
 {
 	ILdouble	*Cross;
 	ILuint		i, Num, x, Scan, First, Last;
 
-	iRegionMask = NULL;
+	*Mask = iRegionMask = NULL;
 
 	if ((RegionPointsi == NULL && RegionPointsf == NULL) || PointNum == 0)
-		return NULL;
+		return IL_TRUE;
 
 	Cross = (ILdouble*)ialloc(sizeof(ILdouble) * PointNum);
 	iRegionMask = (ILubyte*)ialloc(iluCurImage->Width * iluCurImage->Height * iluCurImage->Depth);
@@ -164,7 +165,7 @@ ILubyte *iScanFill()
 		ifree(Cross);
 		ifree(iRegionMask);
 		iRegionMask = NULL;
-		return NULL;
+		return IL_FALSE;
 	}
 	imemclear(iRegionMask, iluCurImage->Width * iluCurImage->Height * iluCurImage->Depth);
 
@@ -182,5 +183,10 @@ ILubyte *iScanFill()
 
 	ifree(Cross);
 
-	return iRegionMask;
+	// The region is the same in every slice.
+	for (i = 1; i < iluCurImage->Depth; i++)
+		memcpy(iRegionMask + i * iluCurImage->Width * iluCurImage->Height, iRegionMask, iluCurImage->Width * iluCurImage->Height);
+
+	*Mask = iRegionMask;
+	return IL_TRUE;
 }
-- 
2.43.0


From a042fd4160c3bce9423f57e1a8ae03a6d6f37e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:41 +0000
Subject: [PATCH 061/115] fix: rotation gives the size of the rotated picture,
 never an empty image

---
 DevIL/src-ILU/src/ilu_rotate.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/DevIL/src-ILU/src/ilu_rotate.cpp b/DevIL/src-ILU/src/ilu_rotate.cpp
index 4961c3b..85a7f64 100644
--- a/DevIL/src-ILU/src/ilu_rotate.cpp
+++ b/DevIL/src-ILU/src/ilu_rotate.cpp
@@ -113,8 +113,8 @@ ILAPI ILimage* ILAPIENTRY iluRotate_(ILimage *Image, ILfloat Angle)
 
 	MinX = (ILint)IL_MIN(0, IL_MIN(Point1x, IL_MIN(Point2x, Point3x)));
 	MinY = (ILint)IL_MIN(0, IL_MIN(Point1y, IL_MIN(Point2y, Point3y)));
-	MaxX = (ILint)IL_MAX(Point1x, IL_MAX(Point2x, Point3x));
-	MaxY = (ILint)IL_MAX(Point1y, IL_MAX(Point2y, Point3y));
+	MaxX = (ILint)IL_MAX(0, IL_MAX(Point1x, IL_MAX(Point2x, Point3x)));
+	MaxY = (ILint)IL_MAX(0, IL_MAX(Point1y, IL_MAX(Point2y, Point3y)));
 
 	Rotated = (ILimage*)icalloc(1, sizeof(ILimage));
 	if (Rotated == NULL)
@@ -124,7 +124,7 @@ ILAPI ILimage* ILAPIENTRY iluRotate_(ILimage *Image, ILfloat Angle)
 		return NULL;
 	}
 
-	if (ilResizeImage(Rotated, (ILuint)ceil(fabs(MaxX) - MinX), (ILuint)ceil(fabs(MaxY) - MinY), Image->Depth, Image->Bpp, Image->Bpc) == IL_FALSE) {
+	if (ilResizeImage(Rotated, (ILuint)IL_MAX(MaxX - MinX, 1), (ILuint)IL_MAX(MaxY - MinY, 1), Image->Depth, Image->Bpp, Image->Bpc) == IL_FALSE) {
 		ilCloseImage(Rotated);
 		return NULL;
 	}
-- 
2.43.0


From 4c45105045b433bad4183cac7f9bd100ffdeaf1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:05 +0000
Subject: [PATCH 062/115] fix: load modes convert each image once and alone,
 the key colour applies to every frame and a failing conversion leaves the
 image alone

---
 DevIL/src-IL/src/il_convert.cpp | 144 ++++++++++++++++++--------------
 1 file changed, 81 insertions(+), 63 deletions(-)

diff --git a/DevIL/src-IL/src/il_convert.cpp b/DevIL/src-IL/src/il_convert.cpp
index 03943d2..90eab15 100644
--- a/DevIL/src-IL/src/il_convert.cpp
+++ b/DevIL/src-IL/src/il_convert.cpp
@@ -227,6 +227,55 @@ ILAPI ILimage* ILAPIENTRY iConvertImage(ILimage *Image, ILenum DestFormat, ILenu
 }
 
 
+// Converts just this image, without the ones that follow it.  It stays as it is if that fails.
+static ILboolean iConvertSingle(ILimage *Image, ILenum DestFormat, ILenum DestType)
+{
+	ILimage *Converted, *Keyed = NULL;
+
+	if (Image->Format == DestFormat && Image->Type == DestType)
+		return IL_TRUE;  // No conversion needed.
+
+	// Only these can get an alpha channel.
+	if (ilIsEnabled(IL_USE_KEY_COLOUR) && (Image->Format == IL_COLOUR_INDEX ||
+		Image->Format == IL_RGB || Image->Format == IL_BGR)) {
+		Keyed = ilCopyImage_(Image);
+		if (Keyed == NULL)
+			return IL_FALSE;
+		if (!ilAddAlphaKey(Keyed)) {
+			ilCloseImage(Keyed);
+			return IL_FALSE;
+		}
+	}
+
+	Converted = iConvertImage(Keyed != NULL ? Keyed : Image, DestFormat, DestType);
+	if (Keyed != NULL)
+		ilCloseImage(Keyed);
+	if (Converted == NULL)
+		return IL_FALSE;
+
+	//ilCopyImageAttr(Image, Converted);  // Destroys subimages.
+
+	// We don't copy the colour profile here, since it stays the same.
+	//	Same with the DXTC data.
+	Image->Format = DestFormat;
+	Image->Type = DestType;
+	Image->Bpc = ilGetBpcType(DestType);
+	Image->Bpp = ilGetBppFormat(DestFormat);
+	Image->Bps = Image->Width * Image->Bpc * Image->Bpp;
+	Image->SizeOfPlane = Image->Bps * Image->Height;
+	Image->SizeOfData = Image->Depth * Image->SizeOfPlane;
+	ifree(Image->Pal.Palette);
+	Image->Pal = Converted->Pal;
+	Converted->Pal.Palette = NULL;
+	ifree(Image->Data);
+	Image->Data = Converted->Data;
+	Converted->Data = NULL;
+	ilCloseImage(Converted);
+
+	return IL_TRUE;
+}
+
+
 //! Converts the current image to the DestFormat format.
 /*! \param DestFormat An enum of the desired output format.  Any format values are accepted.
     \param DestType An enum of the desired output type.  Any type values are accepted.
@@ -236,7 +285,7 @@ ILAPI ILimage* ILAPIENTRY iConvertImage(ILimage *Image, ILenum DestFormat, ILenu
 	\return Boolean value of failure or success*/
 ILboolean ILAPIENTRY ilConvertImage(ILenum DestFormat, ILenum DestType)
 {
-	ILimage *Image, *pCurImage;
+	ILimage *Image;
 
 	if (iCurImage == NULL) {
 		ilSetError(IL_ILLEGAL_OPERATION);
@@ -259,43 +308,9 @@ ILboolean ILAPIENTRY ilConvertImage(ILenum DestFormat, ILenum DestType)
 		}
 	}
 
-	// Only these can get an alpha channel.
-	if (ilIsEnabled(IL_USE_KEY_COLOUR) && (iCurImage->Format == IL_COLOUR_INDEX ||
-		iCurImage->Format == IL_RGB || iCurImage->Format == IL_BGR)) {
-		if (!ilAddAlphaKey(iCurImage))
-			return IL_FALSE;
-	}
-
-	pCurImage = iCurImage;
-	while (pCurImage != NULL)
-	{
-		Image = iConvertImage(pCurImage, DestFormat, DestType);
-		if (Image == NULL)
+	for (Image = iCurImage; Image != NULL; Image = Image->Next) {
+		if (!iConvertSingle(Image, DestFormat, DestType))
 			return IL_FALSE;
-
-		//ilCopyImageAttr(pCurImage, Image);  // Destroys subimages.
-
-		// We don't copy the colour profile here, since it stays the same.
-		//	Same with the DXTC data.
-		pCurImage->Format = DestFormat;
-		pCurImage->Type = DestType;
-		pCurImage->Bpc = ilGetBpcType(DestType);
-		pCurImage->Bpp = ilGetBppFormat(DestFormat);
-		pCurImage->Bps = pCurImage->Width * pCurImage->Bpc * pCurImage->Bpp;
-		pCurImage->SizeOfPlane = pCurImage->Bps * pCurImage->Height;
-		pCurImage->SizeOfData = pCurImage->Depth * pCurImage->SizeOfPlane;
-		if (pCurImage->Pal.Palette && pCurImage->Pal.PalSize && pCurImage->Pal.PalType != IL_PAL_NONE)
-			ifree(pCurImage->Pal.Palette);
-		pCurImage->Pal.Palette = Image->Pal.Palette;
-		pCurImage->Pal.PalSize = Image->Pal.PalSize;
-		pCurImage->Pal.PalType = Image->Pal.PalType;
-		Image->Pal.Palette = NULL;
-		ifree(pCurImage->Data);
-		pCurImage->Data = Image->Data;
-		Image->Data = NULL;
-		ilCloseImage(Image);
-
-		pCurImage = pCurImage->Next;
 	}
 
 	return IL_TRUE;
@@ -530,10 +545,10 @@ static ILfloat KeyRed = 0, KeyGreen = 0, KeyBlue = 0, KeyAlpha = 0;
 
 void ILAPIENTRY ilKeyColour(ILclampf Red, ILclampf Green, ILclampf Blue, ILclampf Alpha)
 {
-	KeyRed		= Red;
-	KeyGreen	= Green;
-	KeyBlue		= Blue;
-	KeyAlpha	= Alpha;
+	KeyRed		= IL_CLAMP(Red);
+	KeyGreen	= IL_CLAMP(Green);
+	KeyBlue		= IL_CLAMP(Blue);
+	KeyAlpha	= IL_CLAMP(Alpha);
 	return;
 }
 
@@ -545,7 +560,7 @@ ILboolean ilAddAlphaKey(ILimage *Image)
 	ILubyte		*NewData, NewBpp;
 	ILpal		*Pal;
 	ILfloat		KeyColour[3];
-	ILuint		i = 0, j = 0, c, Size;
+	ILuint		i = 0, j = 0, c, Size, Max;
 	ILboolean	Same;
 
 	if (Image == NULL) {
@@ -583,58 +598,61 @@ ILboolean ilAddAlphaKey(ILimage *Image)
 		{
 			case IL_BYTE:
 			case IL_UNSIGNED_BYTE:
+				Max = (Image->Type == IL_BYTE) ? IL_MAX_BYTE : IL_MAX_UNSIGNED_BYTE;
 				for (; i < Size; i += Image->Bpp, j += NewBpp) {
 					NewData[j]   = Image->Data[i];
 					NewData[j+1] = Image->Data[i+1];
 					NewData[j+2] = Image->Data[i+2];
 					Same = IL_TRUE;
 					for (c = 0; c < Image->Bpp; c++) {
-						if (Image->Data[i+c] != (ILubyte)(KeyColour[c] * UCHAR_MAX + 0.5f))
+						if (Image->Data[i+c] != (ILubyte)(KeyColour[c] * Max + 0.5f))
 							Same = IL_FALSE;
 					}
 
 					if (Same)
 						NewData[j+3] = 0;  // Transparent - matches key colour
 					else
-						NewData[j+3] = UCHAR_MAX;
+						NewData[j+3] = (ILubyte)Max;
 				}
 				break;
 
 			case IL_SHORT:
 			case IL_UNSIGNED_SHORT:
+				Max = (Image->Type == IL_SHORT) ? IL_MAX_SHORT : IL_MAX_UNSIGNED_SHORT;
 				for (; i < Size; i += Image->Bpp, j += NewBpp) {
 					((ILushort*)NewData)[j]   = ((ILushort*)Image->Data)[i];
 					((ILushort*)NewData)[j+1] = ((ILushort*)Image->Data)[i+1];
 					((ILushort*)NewData)[j+2] = ((ILushort*)Image->Data)[i+2];
 					Same = IL_TRUE;
 					for (c = 0; c < Image->Bpp; c++) {
-						if (((ILushort*)Image->Data)[i+c] != (ILushort)((ILdouble)KeyColour[c] * USHRT_MAX + 0.5))
+						if (((ILushort*)Image->Data)[i+c] != (ILushort)((ILdouble)KeyColour[c] * Max + 0.5))
 							Same = IL_FALSE;
 					}
 
 					if (Same)
 						((ILushort*)NewData)[j+3] = 0;
 					else
-						((ILushort*)NewData)[j+3] = USHRT_MAX;
+						((ILushort*)NewData)[j+3] = (ILushort)Max;
 				}
 				break;
 
 			case IL_INT:
 			case IL_UNSIGNED_INT:
+				Max = (Image->Type == IL_INT) ? IL_MAX_INT : IL_MAX_UNSIGNED_INT;
 				for (; i < Size; i += Image->Bpp, j += NewBpp) {
 					((ILuint*)NewData)[j]   = ((ILuint*)Image->Data)[i];
 					((ILuint*)NewData)[j+1] = ((ILuint*)Image->Data)[i+1];
 					((ILuint*)NewData)[j+2] = ((ILuint*)Image->Data)[i+2];
 					Same = IL_TRUE;
 					for (c = 0; c < Image->Bpp; c++) {
-						if (((ILuint*)Image->Data)[i+c] != (ILuint)((ILdouble)KeyColour[c] * UINT_MAX + 0.5))
+						if (((ILuint*)Image->Data)[i+c] != (ILuint)((ILdouble)KeyColour[c] * Max + 0.5))
 							Same = IL_FALSE;
 					}
 
 					if (Same)
 						((ILuint*)NewData)[j+3] = 0;
 					else
-						((ILuint*)NewData)[j+3] = UINT_MAX;
+						((ILuint*)NewData)[j+3] = Max;
 				}
 				break;
 
@@ -704,7 +722,9 @@ ILboolean ilAddAlphaKey(ILimage *Image)
 			return IL_FALSE;
 		}
 
-		Size = ilGetInteger(IL_PALETTE_NUM_COLS);
+		Size = ilGetBppPal(Image->Pal.PalType);
+		if (Size != 0)
+			Size = Image->Pal.PalSize / Size;
 		if (Size == 0) {
 			ilSetError(IL_INTERNAL_ERROR);
 			return IL_FALSE;
@@ -832,6 +852,8 @@ ILboolean ilRemoveAlpha()
 
 ILboolean ilFixCur()
 {
+	ILenum	Format, Type;
+
 	if (ilIsEnabled(IL_ORIGIN_SET)) {
 		if ((ILenum)ilGetInteger(IL_ORIGIN_MODE) != iCurImage->Origin) {
 			if (!ilFlipImage()) {
@@ -840,24 +862,20 @@ ILboolean ilFixCur()
 		}
 	}
 
-	if (ilIsEnabled(IL_TYPE_SET)) {
-		if ((ILenum)ilGetInteger(IL_TYPE_MODE) != iCurImage->Type) {
-			if (!ilConvertImage(iCurImage->Format, ilGetInteger(IL_TYPE_MODE))) {
-				return IL_FALSE;
-			}
-		}
-	}
-	if (ilIsEnabled(IL_FORMAT_SET)) {
-		if ((ILenum)ilGetInteger(IL_FORMAT_MODE) != iCurImage->Format) {
-			if (!ilConvertImage(ilGetInteger(IL_FORMAT_MODE), iCurImage->Type)) {
-				return IL_FALSE;
-			}
-		}
+	Format = ilIsEnabled(IL_FORMAT_SET) ? (ILenum)ilGetInteger(IL_FORMAT_MODE) : iCurImage->Format;
+	Type   = ilIsEnabled(IL_TYPE_SET) ? (ILenum)ilGetInteger(IL_TYPE_MODE) : iCurImage->Type;
+	if (iCurImage->Format == IL_COLOUR_INDEX && !ilIsEnabled(IL_FORMAT_SET)) {
+		if (ilGetBoolean(IL_CONV_PAL) == IL_TRUE)
+			Format = IL_BGR;
+		else if (Type != IL_UNSIGNED_BYTE)  // Only true colours can have another type.
+			Format = ilGetPalBaseType(iCurImage->Pal.PalType);
 	}
+	if (!iConvertSingle(iCurImage, Format, Type))
+		return IL_FALSE;
 
 	if (iCurImage->Format == IL_COLOUR_INDEX) {
 		if (ilGetBoolean(IL_CONV_PAL) == IL_TRUE) {
-			if (!ilConvertImage(IL_BGR, IL_UNSIGNED_BYTE)) {
+			if (!iConvertSingle(iCurImage, IL_BGR, Type)) {
 				return IL_FALSE;
 			}
 		}
-- 
2.43.0


From 285e94b28aac0a8dc8dd552dc6a189bdee42068f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:02 +0000
Subject: [PATCH 063/115] fix: ilGetAlpha reads indexed images in every type
 and with the alpha of the palette, ilSetAlpha fills half floats, ilClampNTSC
 clamps palettes and reports errors

---
 DevIL/src-IL/src/il_manip.cpp | 46 +++++++++++++++++++++++++++--------
 1 file changed, 36 insertions(+), 10 deletions(-)

diff --git a/DevIL/src-IL/src/il_manip.cpp b/DevIL/src-IL/src/il_manip.cpp
index 869bc44..8ff63df 100644
--- a/DevIL/src-IL/src/il_manip.cpp
+++ b/DevIL/src-IL/src/il_manip.cpp
@@ -865,13 +865,24 @@ ILubyte* ILAPIENTRY ilGetAlpha(ILenum Type)
 		return NULL;
 	}
 
-	if (iCurImage->Type == Type) {
-		TempImage = iCurImage;
-	} else {
-		TempImage = iConvertImage(iCurImage, iCurImage->Format, Type);
-		if (TempImage == NULL)
-			return NULL;
+	TempImage = iCurImage;
+	switch (iCurImage->Format)
+	{
+		case IL_COLOUR_INDEX:
+			// The palette has the alpha values.
+			if (iCurImage->Pal.PalType == IL_PAL_RGBA32 || iCurImage->Pal.PalType == IL_PAL_BGRA32)
+				TempImage = iConvertImage(iCurImage, IL_RGBA, Type);
+			break;
+		case IL_RGBA:
+		case IL_BGRA:
+		case IL_LUMINANCE_ALPHA:
+		case IL_ALPHA:
+			if (iCurImage->Type != Type)
+				TempImage = iConvertImage(iCurImage, iCurImage->Format, Type);
+			break;
 	}
+	if (TempImage == NULL)
+		return NULL;
 
 	Size = iCurImage->Width * iCurImage->Height * iCurImage->Depth * TempImage->Bpp;
 	Alpha = (ILubyte*)ialloc(Size / TempImage->Bpp * Bpc);
@@ -886,7 +897,7 @@ ILubyte* ILAPIENTRY ilGetAlpha(ILenum Type)
 		case IL_RGB:
 		case IL_BGR:
 		case IL_LUMINANCE:
-		case IL_COLOUR_INDEX:  // @TODO: Make IL_COLOUR_INDEX separate.
+		case IL_COLOUR_INDEX:
 			// Everything is opaque.
 			for (i = 0; i < Size / TempImage->Bpp; i++) {
 				switch (Type)
@@ -958,7 +969,10 @@ ILubyte* ILAPIENTRY ilGetAlpha(ILenum Type)
 // Puts Value into the last channel of every pixel of the current image, of which there are NumChans.
 static void iFillAlpha(ILuint NumChans, ILdouble Value)
 {
-	ILuint i, Size = iCurImage->Width * iCurImage->Height * iCurImage->Depth * iCurImage->Bpp;
+	ILuint	i, FloatBits, Size = iCurImage->Width * iCurImage->Height * iCurImage->Depth * iCurImage->Bpp;
+	ILfloat	FloatValue = (ILfloat)Value;
+
+	memcpy(&FloatBits, &FloatValue, sizeof(ILfloat));
 
 	for (i = NumChans - 1; i < Size; i += NumChans) {
 		switch (iCurImage->Type)
@@ -982,7 +996,10 @@ static void iFillAlpha(ILuint NumChans, ILdouble Value)
 				((ILuint*)iCurImage->Data)[i] = (ILuint)(Value * IL_MAX_UNSIGNED_INT + .5);
 				break;
 			case IL_FLOAT:
-				((ILfloat*)iCurImage->Data)[i] = (ILfloat)Value;
+				((ILfloat*)iCurImage->Data)[i] = FloatValue;
+				break;
+			case IL_HALF:
+				((ILushort*)iCurImage->Data)[i] = ilFloatToHalf(FloatBits);
 				break;
 			case IL_DOUBLE:
 				((ILdouble*)iCurImage->Data)[i] = Value;
@@ -1097,8 +1114,17 @@ ILboolean ILAPIENTRY ilClampNTSC(void)
         return IL_FALSE;
     }
 
-	if (iCurImage->Type != IL_UNSIGNED_BYTE)  // Should we set an error here?
+	if (iCurImage->Type != IL_UNSIGNED_BYTE) {
+		ilSetError(IL_ILLEGAL_OPERATION);
 		return IL_FALSE;
+	}
+
+	if (iCurImage->Format == IL_COLOUR_INDEX) {
+		// The colours are in the palette.
+		for (c = 0; c < iCurImage->Pal.PalSize; c++)
+			iCurImage->Pal.Palette[c] = IL_LIMIT(iCurImage->Pal.Palette[c], 16, 235);
+		return IL_TRUE;
+	}
 
 	for (z = 0; z < iCurImage->Depth; z++) {
 		for (y = 0; y < iCurImage->Height; y++) {
-- 
2.43.0


From 01fae5cc028ce39ed6a4fde57e2b130e4806f558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:46 +0000
Subject: [PATCH 064/115] fix: compressed images: check sizes, keep an image
 consistent and its data until a call succeeds, restore the selection

---
 DevIL/src-IL/src/il_dds.cpp | 139 ++++++++++++++++++++----------------
 1 file changed, 78 insertions(+), 61 deletions(-)

diff --git a/DevIL/src-IL/src/il_dds.cpp b/DevIL/src-IL/src/il_dds.cpp
index 358dba6..2999e65 100644
--- a/DevIL/src-IL/src/il_dds.cpp
+++ b/DevIL/src-IL/src/il_dds.cpp
@@ -2151,7 +2151,8 @@ void ilFreeImageDxtcData()
  */
 ILAPI ILboolean ILAPIENTRY ilDxtcDataToSurface()
 {
-	ILuint CompFormat;
+	ILuint CompFormat, NumBlocks, BlockSize;
+	ILubyte *NewData;
 
 	if (iCurImage == NULL || iCurImage->DxtcData == NULL) {
 		ilSetError(IL_INVALID_PARAM);
@@ -2164,6 +2165,24 @@ ILAPI ILboolean ILAPIENTRY ilDxtcDataToSurface()
 		return IL_FALSE;
 	}
 
+	// The kept data has to cover the whole surface.
+	NumBlocks = ((iCurImage->Width + 3) / 4) * ((iCurImage->Height + 3) / 4) * iCurImage->Depth;
+	BlockSize = iCurImage->DxtcFormat == IL_DXT1 ? 8 : 16;
+	if (NumBlocks == 0 || iCurImage->DxtcSize / BlockSize < NumBlocks) {
+		ilSetError(IL_INVALID_PARAM);
+		return IL_FALSE;
+	}
+
+	NewData = (ILubyte*)ialloc(iCurImage->Width * iCurImage->Height * iCurImage->Depth * 4);
+	if (NewData == NULL)
+		return IL_FALSE;
+
+	if (iCurImage->Pal.Palette != NULL)
+		ifree(iCurImage->Pal.Palette);
+	iCurImage->Pal.Palette = NULL;
+	iCurImage->Pal.PalSize = 0;
+	iCurImage->Pal.PalType = IL_PAL_NONE;
+
 	//@TODO: is this right for all dxt formats? works for
 	//  DXT1, 3, 5
 	iCurImage->Bpp = 4;
@@ -2173,16 +2192,10 @@ ILAPI ILboolean ILAPIENTRY ilDxtcDataToSurface()
 	iCurImage->Format = IL_RGBA;
 	iCurImage->Type = IL_UNSIGNED_BYTE;
 
-	if (iCurImage->SizeOfData != iCurImage->SizeOfPlane*iCurImage->Depth) {
-		iCurImage->SizeOfData = iCurImage->Depth*iCurImage->SizeOfPlane;
-		if (iCurImage->Data != NULL)
-			ifree(iCurImage->Data);
-		iCurImage->Data = NULL;
-	}
-
-	if (iCurImage->Data == NULL) {
-		iCurImage->Data = (ILubyte*)ialloc(iCurImage->SizeOfData);
-	}
+	iCurImage->SizeOfData = iCurImage->Depth*iCurImage->SizeOfPlane;
+	if (iCurImage->Data != NULL)
+		ifree(iCurImage->Data);
+	iCurImage->Data = NewData;
 
 	Image = iCurImage;
 	Width = iCurImage->Width;
@@ -2195,7 +2208,8 @@ ILAPI ILboolean ILAPIENTRY ilDxtcDataToSurface()
 		case IL_DXT5: CompFormat = PF_DXT5; break;
 	}
 	CompData = iCurImage->DxtcData;
-	DdsDecompress(CompFormat, IL_FALSE); //@TODO: globals suck...fix this
+	if (!DdsDecompress(CompFormat, IL_FALSE)) //@TODO: globals suck...fix this
+		return IL_FALSE;
 	//@TODO: Should we ever expect this to be IL_TRUE?
 
 	//@TODO: origin should be set in Decompress()...
@@ -2236,7 +2250,6 @@ ILAPI ILboolean ILAPIENTRY ilSurfaceToDxtcData(ILenum Format)
 {
 	ILuint Size;
 	ILubyte* Data;
-	ilFreeSurfaceDxtcData();
 
 	Size = ilGetDXTCData(NULL, 0, Format);
 	if (Size == 0) {
@@ -2248,7 +2261,12 @@ ILAPI ILboolean ILAPIENTRY ilSurfaceToDxtcData(ILenum Format)
 	if (Data == NULL)
 		return IL_FALSE;
             
-	ilGetDXTCData((void*)Data, Size, Format);
+	ilFreeSurfaceDxtcData();
+
+	if (ilGetDXTCData((void*)Data, Size, Format) != Size) {
+		ifree(Data);
+		return IL_FALSE;
+	}
 
 	//These have to be after the call to ilGetDXTCData()
 	iCurImage->DxtcData = Data;
@@ -2281,6 +2299,7 @@ ILAPI ILboolean ILAPIENTRY ilImageToDxtcData(ILenum Format)
 				ret = IL_FALSE;
 		}
 	}
+	ilBindImage(ImgID);
 
 	return ret;
 }
@@ -2293,68 +2312,66 @@ ILAPI ILboolean ILAPIENTRY ilTexImageDxtc(ILint w, ILint h, ILint d, ILenum DxtF
 {
 	ILimage* Image = iCurImage;
 
-	ILint xBlocks, yBlocks, BlockSize, LineSize, DataSize;
-
+	ILuint		BlockSize, DataSize;
+	ILuint64	NumBlocks;
+	ILubyte		*DxtcData;
 
-	//The next few lines are copied from ilTexImage() and ilInitImage() -
-	//should be factored in more reusable functions...
 	if (Image == NULL) {
 		ilSetError(IL_ILLEGAL_OPERATION);
 		return IL_FALSE;
 	}
 
-	////
-
-	// Not sure if we should be getting rid of the palette...
-	if (Image->Pal.Palette && Image->Pal.PalSize && Image->Pal.PalType != IL_PAL_NONE) {
-		ifree(Image->Pal.Palette);
+	switch (DxtFormat)
+	{
+		case IL_DXT1:
+		case IL_DXT1A:
+		case IL_ATI1N:
+			BlockSize = 8;
+			break;
+		case IL_DXT2:
+		case IL_DXT3:
+		case IL_DXT4:
+		case IL_DXT5:
+		case IL_3DC:
+		case IL_RXGB:
+			BlockSize = 16;
+			break;
+		default:
+			ilSetError(IL_INVALID_PARAM);
+			return IL_FALSE;
 	}
 
-	// These are set NULL later by the memset call.
-	ilCloseImage(Image->Mipmaps);
-	ilCloseImage(Image->Next);
-	ilCloseImage(Image->Faces);
-	ilCloseImage(Image->Layers);
-
-	if (Image->AnimList) ifree(Image->AnimList);
-	if (Image->Profile)  ifree(Image->Profile);
-	if (Image->DxtcData) ifree(Image->DxtcData);
-	if (Image->Data)	 ifree(Image->Data);
-
-
-	////
+	if (w < 1 || h < 1 || d < 1) {
+		ilSetError(IL_INVALID_PARAM);
+		return IL_FALSE;
+	}
 
-	memset(Image, 0, sizeof(ILimage));
-	Image->Width	   = w;
-	Image->Height	   = h;
-	Image->Depth	   = d;
+	// Allocate DXT data buffer
+	NumBlocks = ((ILuint64)w + 3) / 4 * (((ILuint64)h + 3) / 4);
+	if (NumBlocks > 0x7FFFFFFF / BlockSize || NumBlocks * d > 0x7FFFFFFF / BlockSize) {
+		ilSetError(IL_INVALID_PARAM);
+		return IL_FALSE;
+	}
+	DataSize = (ILuint)(NumBlocks * d * BlockSize);
+	DxtcData = (ILubyte*)ialloc(DataSize);
+	if (DxtcData == NULL)
+		return IL_FALSE;
 
-	//TODO: What about origin with dxtc data?
-	Image->Origin	   = IL_ORIGIN_LOWER_LEFT;
-	Image->Pal.PalType = IL_PAL_NONE;
-
-    // Allocate DXT data buffer
-	xBlocks = (w + 3)/4;
-	yBlocks = (h + 3)/4;
-	if (DxtFormat == IL_DXT1)
-		BlockSize = 8;
+	if (data != NULL)
+		memcpy(DxtcData, data, DataSize);
 	else
-		BlockSize = 16;
-
-	LineSize = xBlocks * BlockSize;
-
-	DataSize = yBlocks * LineSize * d;
+		memset(DxtcData, 0, DataSize);
 
-	Image->DxtcFormat  = DxtFormat;
-    Image->DxtcSize = DataSize;
-	Image->DxtcData    = (ILubyte*)ialloc(DataSize);
-
-	if (Image->DxtcData == NULL) {
+	// The surface itself stays black until the data is decompressed with ilDxtcDataToSurface().
+	if (!ilTexImage_(Image, w, h, d, 4, IL_RGBA, IL_UNSIGNED_BYTE, NULL)) {
+		ifree(DxtcData);
 		return IL_FALSE;
 	}
 
-	if (data != NULL)
-		memcpy(Image->DxtcData, data, DataSize);
+	//TODO: What about origin with dxtc data?
+	Image->DxtcFormat = DxtFormat;
+	Image->DxtcSize = DataSize;
+	Image->DxtcData = DxtcData;
 
 	return IL_TRUE;
 }
-- 
2.43.0


From 5a96d61ba38a34ee443389399a472ed12e1cc491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:46 +0000
Subject: [PATCH 065/115] fix: PNG saving handles libpng errors and palettes
 that cannot be converted, and writes the title

---
 DevIL/src-IL/src/il_png.cpp | 45 +++++++++++++++++++++----------------
 1 file changed, 26 insertions(+), 19 deletions(-)

diff --git a/DevIL/src-IL/src/il_png.cpp b/DevIL/src-IL/src/il_png.cpp
index 9dad2ba..6ef2483 100644
--- a/DevIL/src-IL/src/il_png.cpp
+++ b/DevIL/src-IL/src/il_png.cpp
@@ -497,8 +497,9 @@ ILboolean iSavePngInternal()
 	png_text	text[4];
 	ILenum		PngType;
 	ILuint		BitDepth, i, j;
-	ILubyte 	**RowPtr = NULL;
-	ILimage 	*Temp = NULL;
+	// Both are changed between setjmp() and a possible longjmp().
+	ILubyte 	** volatile RowPtr = NULL;
+	ILimage 	* volatile Temp = iCurImage;
 
 	if (iCurImage == NULL) {
 		ilSetError(IL_ILLEGAL_OPERATION);
@@ -521,17 +522,18 @@ ILboolean iSavePngInternal()
 	info_ptr = png_create_info_struct(png_ptr);
 	if (info_ptr == NULL) {
 		ilSetError(IL_LIB_PNG_ERROR);
-		goto error_label;
+		png_destroy_write_struct(&png_ptr, NULL);
+		return IL_FALSE;
 	}
 
-	/*// Set error handling.  REQUIRED if you aren't supplying your own
+	imemclear(text, sizeof(png_text) * 4);
+
+	// Set error handling.  REQUIRED if you aren't supplying your own
 	//	error handling functions in the png_create_write_struct() call.
 	if (setjmp(png_jmpbuf(png_ptr))) {
-		// If we get here, we had a problem reading the file
-		png_destroy_write_struct(&png_ptr, &info_ptr);
-		ilSetError(IL_LIB_PNG_ERROR);
-		return IL_FALSE;
-	}*/
+		// If we get here, we had a problem writing the file
+		goto error_label;
+	}
 
 //	png_init_io(png_ptr, PngFile);
 	png_set_write_fn(png_ptr, NULL, png_write, flush_data);
@@ -614,6 +616,8 @@ ILboolean iSavePngInternal()
         }
 
 		TempPal = iConvertPal(&iCurImage->Pal, IL_PAL_RGB24);
+		if (TempPal == NULL)
+			goto error_label;
 		png_set_PLTE(png_ptr, info_ptr, (png_colorp)TempPal->Palette, numCols);
         ilClosePal(TempPal);
 
@@ -657,7 +661,6 @@ ILboolean iSavePngInternal()
 	//png_set_gAMA(png_ptr, info_ptr, gamma);
 
 	// Optionally write comments into the image.
-	imemclear(text, sizeof(png_text) * 4);
 	text[0].key = (png_charp)"Generated by";
 	text[0].text = (png_charp)"Generated by the Developer's Image Library (DevIL)";
 	text[0].compression = PNG_TEXT_COMPRESSION_NONE;
@@ -670,18 +673,17 @@ ILboolean iSavePngInternal()
 	text[3].key = (png_charp)"Title";
 	text[3].text = iGetString(IL_PNG_TITLE_STRING);
 	text[3].compression = PNG_TEXT_COMPRESSION_NONE;
-	png_set_text(png_ptr, info_ptr, text, 3);
+	png_set_text(png_ptr, info_ptr, text, 4);
 
 	// Write the file header information.  REQUIRED.
 	png_write_info(png_ptr, info_ptr);
 
 	// Free up our user-defined text.
-	if (text[1].text)
-		ifree(text[1].text);
-	if (text[2].text)
-		ifree(text[2].text);
-	if (text[3].text)
-		ifree(text[3].text);
+	for (i = 1; i < 4; i++) {
+		if (text[i].text)
+			ifree(text[i].text);
+		text[i].text = NULL;
+	}
 
 	/* Shift the pixels up to a legal bit depth and fill in
 	* as appropriate to correctly scale the image.
@@ -735,9 +737,14 @@ ILboolean iSavePngInternal()
 	return IL_TRUE;
 
 error_label:
+	for (i = 1; i < 4; i++) {
+		if (text[i].text)
+			ifree(text[i].text);
+	}
 	png_destroy_write_struct(&png_ptr, &info_ptr);
-	ifree(RowPtr);
-	if (Temp != iCurImage)
+	if (RowPtr != NULL)
+		ifree(RowPtr);
+	if (Temp != NULL && Temp != iCurImage)
 		ilCloseImage(Temp);
 	return IL_FALSE;
 }
-- 
2.43.0


From 2d2a7b554d44144998bd3b161050e0b55286a6f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:23 +0000
Subject: [PATCH 066/115] fix: the FITS loader clears its whole header, not the
 first bytes of it

---
 DevIL/src-IL/src/il_fits.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DevIL/src-IL/src/il_fits.cpp b/DevIL/src-IL/src/il_fits.cpp
index cf375ce..406de2d 100644
--- a/DevIL/src-IL/src/il_fits.cpp
+++ b/DevIL/src-IL/src/il_fits.cpp
@@ -102,7 +102,7 @@ ILboolean iGetFitsHead(FITSHEAD *Header)
 	ILenum	CardKey;
 
 //@TODO: Use something other than memset?
-	memset(Header, 0, sizeof(Header));  // Clear the header to all 0s first.
+	memset(Header, 0, sizeof(*Header));  // Clear the header to all 0s first.
 
 	do {
 		CardKey = GetCardImage(Header);
-- 
2.43.0


From f74b176905f6b8dcb81b5283c9bd1e08c91aef1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:23 +0000
Subject: [PATCH 067/115] fix: palette entries that a damaged file does not
 give are zero

---
 DevIL/src-IL/src/il_blp.cpp   | 10 +++++-----
 DevIL/src-IL/src/il_bmp.cpp   |  6 +++---
 DevIL/src-IL/src/il_lif.cpp   |  2 +-
 DevIL/src-IL/src/il_mdl.cpp   |  2 +-
 DevIL/src-IL/src/il_pcx.cpp   |  4 ++--
 DevIL/src-IL/src/il_targa.cpp |  2 +-
 DevIL/src-IL/src/il_utx.cpp   |  2 +-
 7 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/DevIL/src-IL/src/il_blp.cpp b/DevIL/src-IL/src/il_blp.cpp
index 85fbc4d..a22ecbe 100755
--- a/DevIL/src-IL/src/il_blp.cpp
+++ b/DevIL/src-IL/src/il_blp.cpp
@@ -270,7 +270,7 @@ ILboolean iLoadBlpInternal(void)
 							Image = iCurImage;
 							BaseCreated = IL_TRUE;
 
-							Image->Pal.Palette = (ILubyte*)ialloc(256 * 4);  // 256 entries of ARGB8888 values (1024).
+							Image->Pal.Palette = (ILubyte*)icalloc(256 * 4, 1);  // 256 entries of ARGB8888 values (1024).
 							if (Image->Pal.Palette == NULL)
 								return IL_FALSE;
 							Image->Pal.PalSize = 1024;
@@ -309,7 +309,7 @@ ILboolean iLoadBlpInternal(void)
 							Image = iCurImage;
 							BaseCreated = IL_TRUE;
 
-							Palette = (ILubyte*)ialloc(256 * 4);
+							Palette = (ILubyte*)icalloc(256 * 4, 1);
 							if (Palette == NULL)
 								return IL_FALSE;
 
@@ -630,7 +630,7 @@ ILboolean iLoadBlp1()
 							BaseCreated = IL_TRUE;
 
 							// We have a BGRA palette.
-							Image->Pal.Palette = (ILubyte*)ialloc(256 * 4);
+							Image->Pal.Palette = (ILubyte*)icalloc(256 * 4, 1);
 							if (Image->Pal.Palette == NULL)
 								return IL_FALSE;
 							Image->Pal.PalSize = 1024;
@@ -651,7 +651,7 @@ ILboolean iLoadBlp1()
 								return IL_FALSE;
 
 							// Copy the palette from the first image before we change our Image pointer.
-							Image->Mipmaps->Pal.Palette = (ILubyte*)ialloc(256 * 4);
+							Image->Mipmaps->Pal.Palette = (ILubyte*)icalloc(256 * 4, 1);
 							if (Image->Mipmaps->Pal.Palette == NULL)
 								return IL_FALSE;
 							Image->Mipmaps->Pal.PalSize = 1024;
@@ -679,7 +679,7 @@ ILboolean iLoadBlp1()
 						return IL_FALSE;
 
 					DataAndAlpha = (ILubyte*)ialloc(Header.Width * Header.Height);
-					Palette = (ILubyte*)ialloc(256 * 4);
+					Palette = (ILubyte*)icalloc(256 * 4, 1);
 					if (DataAndAlpha == NULL || Palette == NULL) {
 						ifree(DataAndAlpha);
 						ifree(Palette);
diff --git a/DevIL/src-IL/src/il_bmp.cpp b/DevIL/src-IL/src/il_bmp.cpp
index 48577cd..70a71d2 100644
--- a/DevIL/src-IL/src/il_bmp.cpp
+++ b/DevIL/src-IL/src/il_bmp.cpp
@@ -728,7 +728,7 @@ ILboolean iGetOS2Bmp(OS2_HEAD *Header)
 		}
 		iCurImage->Origin = IL_ORIGIN_LOWER_LEFT;
 
-		iCurImage->Pal.Palette = (ILubyte*)ialloc(2 * 3);
+		iCurImage->Pal.Palette = (ILubyte*)icalloc(2 * 3, 1);
 		if (iCurImage->Pal.Palette == NULL) {
 			return IL_FALSE;
 		}
@@ -767,7 +767,7 @@ ILboolean iGetOS2Bmp(OS2_HEAD *Header)
 		}
 		iCurImage->Origin = IL_ORIGIN_LOWER_LEFT;
 
-		iCurImage->Pal.Palette = (ILubyte*)ialloc(16 * 3);
+		iCurImage->Pal.Palette = (ILubyte*)icalloc(16 * 3, 1);
 		if (iCurImage->Pal.Palette == NULL) {
 			return IL_FALSE;
 		}
@@ -800,7 +800,7 @@ ILboolean iGetOS2Bmp(OS2_HEAD *Header)
 		if (!ilTexImage(Header->cx, Header->cy, 1, 1, IL_COLOUR_INDEX, IL_UNSIGNED_BYTE, NULL))
 			return IL_FALSE;
 
-		iCurImage->Pal.Palette = (ILubyte*)ialloc(256 * 3);
+		iCurImage->Pal.Palette = (ILubyte*)icalloc(256 * 3, 1);
 		if (iCurImage->Pal.Palette == NULL) {
 			return IL_FALSE;
 		}
diff --git a/DevIL/src-IL/src/il_lif.cpp b/DevIL/src-IL/src/il_lif.cpp
index 0118f69..b9af4c9 100644
--- a/DevIL/src-IL/src/il_lif.cpp
+++ b/DevIL/src-IL/src/il_lif.cpp
@@ -176,7 +176,7 @@ ILboolean iLoadLifInternal()
 	}
 	iCurImage->Origin = IL_ORIGIN_UPPER_LEFT;
 
-	iCurImage->Pal.Palette = (ILubyte*)ialloc(1024);
+	iCurImage->Pal.Palette = (ILubyte*)icalloc(1024, 1);
 	if (iCurImage->Pal.Palette == NULL)
 		return IL_FALSE;
 	iCurImage->Pal.PalSize = 1024;
diff --git a/DevIL/src-IL/src/il_mdl.cpp b/DevIL/src-IL/src/il_mdl.cpp
index 2ce5db7..9c2d54d 100644
--- a/DevIL/src-IL/src/il_mdl.cpp
+++ b/DevIL/src-IL/src/il_mdl.cpp
@@ -188,7 +188,7 @@ ILboolean iLoadMdlInternal()
 		}
 		Image->Origin = IL_ORIGIN_LOWER_LEFT;
 
-		TempPal	= (ILubyte*)ialloc(768);
+		TempPal	= (ILubyte*)icalloc(768, 1);
 		if (TempPal == NULL)
 			return IL_FALSE;
 		Image->Pal.Palette = TempPal;
diff --git a/DevIL/src-IL/src/il_pcx.cpp b/DevIL/src-IL/src/il_pcx.cpp
index dfc9f09..b38be59 100644
--- a/DevIL/src-IL/src/il_pcx.cpp
+++ b/DevIL/src-IL/src/il_pcx.cpp
@@ -249,7 +249,7 @@ ILboolean iUncompressPcx(PCXHEAD *Header)
 			iCurImage->Format = IL_COLOUR_INDEX;
 			iCurImage->Pal.PalType = IL_PAL_RGB24;
 			iCurImage->Pal.PalSize = 256 * 3;  // Need to find out for sure...
-			iCurImage->Pal.Palette = (ILubyte*)ialloc(iCurImage->Pal.PalSize);
+			iCurImage->Pal.Palette = (ILubyte*)icalloc(iCurImage->Pal.PalSize, 1);
 			if (iCurImage->Pal.Palette == NULL) {
 				iCurImage->Pal.PalSize = 0;
 				iCurImage->Pal.PalType = IL_PAL_NONE;
@@ -424,7 +424,7 @@ ILboolean iUncompressSmall(PCXHEAD *Header)
 		ScanLine = (ILubyte*)ialloc(Bps);
 		if (ScanLine == NULL)
 			return IL_FALSE;
-		iCurImage->Pal.Palette = (ILubyte*)ialloc(16 * 3);  // Size of palette always (48 bytes).
+		iCurImage->Pal.Palette = (ILubyte*)icalloc(16 * 3, 1);  // Size of palette always (48 bytes).
 		if (iCurImage->Pal.Palette == NULL) {
 			ifree(ScanLine);
 			return IL_FALSE;
diff --git a/DevIL/src-IL/src/il_targa.cpp b/DevIL/src-IL/src/il_targa.cpp
index f394482..76d9e54 100644
--- a/DevIL/src-IL/src/il_targa.cpp
+++ b/DevIL/src-IL/src/il_targa.cpp
@@ -292,7 +292,7 @@ ILboolean iReadColMapTga(TARGAHEAD *Header)
 		return IL_FALSE;
 	}
 	
-	iCurImage->Pal.Palette = (ILubyte*)ialloc(PalSize);
+	iCurImage->Pal.Palette = (ILubyte*)icalloc(PalSize, 1);
 	if (iCurImage->Pal.Palette == NULL) {
 		return IL_FALSE;
 	}
diff --git a/DevIL/src-IL/src/il_utx.cpp b/DevIL/src-IL/src/il_utx.cpp
index d4c370e..59eec82 100644
--- a/DevIL/src-IL/src/il_utx.cpp
+++ b/DevIL/src-IL/src/il_utx.cpp
@@ -532,7 +532,7 @@ ILboolean iLoadUtxInternal(void)
 			{
 				case UTX_P8:
 					Image->Pal.PalSize = Palettes[PalEntry].Count * 4;
-					Image->Pal.Palette = (ILubyte*)ialloc(Image->Pal.PalSize);
+					Image->Pal.Palette = (ILubyte*)icalloc(Image->Pal.PalSize, 1);
 					if (Image->Pal.Palette == NULL)
 						return IL_FALSE;
 					memcpy(Image->Pal.Palette, Palettes[PalEntry].Pal, Image->Pal.PalSize);
-- 
2.43.0


From 03888476a57ca88c866893b59d82b1c55b8037dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:46 +0000
Subject: [PATCH 068/115] fix: registering faces, mipmaps and images survives
 failed allocations

---
 DevIL/src-IL/src/il_register.cpp | 48 +++++++++++++-------------------
 1 file changed, 19 insertions(+), 29 deletions(-)

diff --git a/DevIL/src-IL/src/il_register.cpp b/DevIL/src-IL/src/il_register.cpp
index 274674b..9854f8e 100644
--- a/DevIL/src-IL/src/il_register.cpp
+++ b/DevIL/src-IL/src/il_register.cpp
@@ -267,7 +267,7 @@ void ILAPIENTRY ilRegisterFormat(ILenum Format)
 
 ILboolean ILAPIENTRY ilRegisterNumFaces(ILuint Num)
 {
-	ILimage *Next, *Prev;
+	ILimage *Next;
 
 	ilBindImage(ilGetCurName());  // Make sure the current image is actually bound.
 	ilCloseImage(iCurImage->Faces);  // Close any current mipmaps.
@@ -286,12 +286,8 @@ ILboolean ILAPIENTRY ilRegisterNumFaces(ILuint Num)
 		Next->Faces = ilNewImage(1, 1, 1, 1, 1);
 		if (Next->Faces == NULL) {
 			// Clean up before we error out.
-			Prev = iCurImage->Faces;
-			while (Prev) {
-				Next = Prev->Faces;
-				ilCloseImage(Prev);
-				Prev = Next;
-			}
+			ilCloseImage(iCurImage->Faces);
+			iCurImage->Faces = NULL;
 			return IL_FALSE;
 		}
 		Next = Next->Faces;
@@ -304,7 +300,7 @@ ILboolean ILAPIENTRY ilRegisterNumFaces(ILuint Num)
 
 ILboolean ILAPIENTRY ilRegisterMipNum(ILuint Num)
 {
-	ILimage *Next, *Prev;
+	ILimage *Next;
 
 	ilBindImage(ilGetCurName());  // Make sure the current image is actually bound.
 	ilCloseImage(iCurImage->Mipmaps);  // Close any current mipmaps.
@@ -320,18 +316,14 @@ ILboolean ILAPIENTRY ilRegisterMipNum(ILuint Num)
 	Num--;
 
 	while (Num) {
-		Next->Next = ilNewImage(1, 1, 1, 1, 1);
-		if (Next->Next == NULL) {
+		Next->Mipmaps = ilNewImage(1, 1, 1, 1, 1);
+		if (Next->Mipmaps == NULL) {
 			// Clean up before we error out.
-			Prev = iCurImage->Mipmaps;
-			while (Prev) {
-				Next = Prev->Next;
-				ilCloseImage(Prev);
-				Prev = Next;
-			}
+			ilCloseImage(iCurImage->Mipmaps);
+			iCurImage->Mipmaps = NULL;
 			return IL_FALSE;
 		}
-		Next = Next->Next;
+		Next = Next->Mipmaps;
 		Num--;
 	}
 
@@ -341,7 +333,7 @@ ILboolean ILAPIENTRY ilRegisterMipNum(ILuint Num)
 
 ILboolean ILAPIENTRY ilRegisterNumImages(ILuint Num)
 {
-	ILimage *Next, *Prev;
+	ILimage *Next;
 
 	ilBindImage(ilGetCurName());  // Make sure the current image is actually bound.
 	ilCloseImage(iCurImage->Next);  // Close any current "next" images.
@@ -360,12 +352,8 @@ ILboolean ILAPIENTRY ilRegisterNumImages(ILuint Num)
 		Next->Next = ilNewImage(1, 1, 1, 1, 1);
 		if (Next->Next == NULL) {
 			// Clean up before we error out.
-			Prev = iCurImage->Next;
-			while (Prev) {
-				Next = Prev->Next;
-				ilCloseImage(Prev);
-				Prev = Next;
-			}
+			ilCloseImage(iCurImage->Next);
+			iCurImage->Next = NULL;
 			return IL_FALSE;
 		}
 		Next = Next->Next;
@@ -400,15 +388,17 @@ void ILAPIENTRY ilRegisterType(ILenum Type)
 
 void ILAPIENTRY ilRegisterPal(void *Pal, ILuint Size, ILenum Type)
 {
-	if (!iCurImage->Pal.Palette || !iCurImage->Pal.PalSize || iCurImage->Pal.PalType != IL_PAL_NONE) {
+	ILubyte *Palette = (ILubyte*)icalloc(Size, 1);
+
+	if (Palette == NULL)
+		return;
+
+	if (iCurImage->Pal.Palette)
 		ifree(iCurImage->Pal.Palette);
-	}
 
 	iCurImage->Pal.PalSize = Size;
 	iCurImage->Pal.PalType = Type;
-	iCurImage->Pal.Palette = (ILubyte*)ialloc(Size);
-	if (iCurImage->Pal.Palette == NULL)
-		return;
+	iCurImage->Pal.Palette = Palette;
 
 	if (Pal != NULL) {
 		memcpy(iCurImage->Pal.Palette, Pal, Size);
-- 
2.43.0


From c8788bb21f85a88e34d979453ae76918ebfc8026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:46 +0000
Subject: [PATCH 069/115] fix: Targa saver releases its conversions when memory
 runs out

---
 DevIL/src-IL/src/il_targa.cpp | 70 ++++++++++++++++-------------------
 1 file changed, 32 insertions(+), 38 deletions(-)

diff --git a/DevIL/src-IL/src/il_targa.cpp b/DevIL/src-IL/src/il_targa.cpp
index 76d9e54..0ba5f57 100644
--- a/DevIL/src-IL/src/il_targa.cpp
+++ b/DevIL/src-IL/src/il_targa.cpp
@@ -625,12 +625,13 @@ ILboolean iSaveTargaInternal()
 	char		*Footer = (char*)"TRUEVISION-XFILE.\0";
 	char		*idString = (char*)"Developer's Image Library (DevIL)";
 	ILuint		Day, Month, Year, Hour, Minute, Second;
-	char		*TempData;
+	char		*TempData = NULL;
+	ILboolean	Swapped = IL_FALSE, Ret = IL_FALSE;
 	ILshort		zero_short = 0;
 
 	if (iCurImage == NULL) {
 		ilSetError(IL_ILLEGAL_OPERATION);
-		return IL_FALSE;
+		goto cleanup;
 	}
 	
 	if (iGetInt(IL_TGA_RLE) == IL_TRUE)
@@ -666,7 +667,9 @@ ILboolean iSaveTargaInternal()
 			break;
 		case IL_RGB:
 		case IL_RGBA:
-			ilSwapColours();
+			Swapped = ilSwapColours();
+			if (!Swapped)
+				goto cleanup;
 			if (Compress)
 				Type = 10;
 			else
@@ -681,10 +684,7 @@ ILboolean iSaveTargaInternal()
 		default:
 			// Should convert the types here...
 			ilSetError(IL_INVALID_VALUE);
-			ifree(ID);
-			ifree(AuthName);
-			ifree(AuthComment);
-			return IL_FALSE;
+			goto cleanup;
 	}
 	
 	iwrite(&Type, sizeof(ILubyte), 1);
@@ -709,30 +709,21 @@ ILboolean iSaveTargaInternal()
 		case IL_PAL_BGRA32:
 			TempPal = iConvertPal(&iCurImage->Pal, IL_PAL_BGR24);
 			if (TempPal == NULL)
-				return IL_FALSE;
-				PalSize = (ILshort)(TempPal->PalSize / 3);
+				goto cleanup;
+			PalSize = (ILshort)(TempPal->PalSize / 3);
 			PalEntSize = 24;
 			break;
 		default:
 			ilSetError(IL_INVALID_VALUE);
-			ifree(ID);
-			ifree(AuthName);
-			ifree(AuthComment);
-			PalSize = 0;
-			PalEntSize = 0;
-			return IL_FALSE;
+			goto cleanup;
 	}
 	SaveLittleShort(PalSize);
 	iwrite(&PalEntSize, sizeof(ILubyte), 1);
 	
 	if (iCurImage->Bpc > 1) {
 		TempImage = iConvertImage(iCurImage, iCurImage->Format, IL_UNSIGNED_BYTE);
-		if (TempImage == NULL) {
-			ifree(ID);
-			ifree(AuthName);
-			ifree(AuthComment);
-			return IL_FALSE;
-		}
+		if (TempImage == NULL)
+			goto cleanup;
 	}
 	else {
 		TempImage = iCurImage;
@@ -740,6 +731,8 @@ ILboolean iSaveTargaInternal()
 	
 	if (TempImage->Origin != IL_ORIGIN_LOWER_LEFT) {
 		TempData = (char*)iGetFlipped(TempImage);
+		if (TempData == NULL)
+			goto cleanup;
 	}
 	else
 		TempData = (char*)TempImage->Data;
@@ -762,7 +755,6 @@ ILboolean iSaveTargaInternal()
 	// The data is always written bottom row first, so the origin bits stay 0.
 	iwrite(&Temp, sizeof(ILubyte), 1);
 	iwrite(ID, sizeof(char), IDLen);
-	ifree(ID);
 	//iwrite(ID, sizeof(ILbyte), IDLen - sizeof(ILuint));
 	//iwrite(&iCurImage->Depth, sizeof(ILuint), 1);
 	
@@ -775,11 +767,8 @@ ILboolean iSaveTargaInternal()
 		iwrite(TempData, sizeof(ILubyte), TempImage->SizeOfData);
 	else {
 		Rle = (ILubyte*)ialloc(TempImage->SizeOfData * 2 + 1);	// max
-		if (Rle == NULL) {
-			ifree(AuthName);
-			ifree(AuthComment);
-			return IL_FALSE;
-		}
+		if (Rle == NULL)
+			goto cleanup;
 		RleLen = ilRleCompress((unsigned char*)TempData, TempImage->Width, TempImage->Height,
 		                       TempImage->Depth, TempImage->Bpp, Rle, IL_TGACOMP, NULL);
 		
@@ -794,8 +783,6 @@ ILboolean iSaveTargaInternal()
 	ipad(41 - ilCharStrLen(AuthName));
 	iwrite(AuthComment, 1, ilCharStrLen(AuthComment));
 	ipad(324 - ilCharStrLen(AuthComment));
-	ifree(AuthName);
-	ifree(AuthComment);
 	
 	// Write time/date
 	iGetDateTime(&Month, &Day, &Year, &Hour, &Minute, &Second);
@@ -836,22 +823,29 @@ ILboolean iSaveTargaInternal()
 	SaveLittleUInt(0);	// No developer directory
 	iwrite(Footer, 1, ilCharStrLen(Footer)+1);
 	
-	if (TempImage->Origin != IL_ORIGIN_LOWER_LEFT) {
+	Ret = IL_TRUE;
+
+cleanup:
+	if (ID)
+		ifree(ID);
+	if (AuthName)
+		ifree(AuthName);
+	if (AuthComment)
+		ifree(AuthComment);
+	if (TempData != NULL && TempData != (char*)TempImage->Data)
 		ifree(TempData);
-	}
-	if (Format == IL_RGB || Format == IL_RGBA) {
+	if (Swapped)
 		ilSwapColours();
-	}
-	
-	if (TempPal != &iCurImage->Pal && TempPal != NULL) {
+
+	if (TempPal != NULL && TempPal != &iCurImage->Pal) {
 		ifree(TempPal->Palette);
 		ifree(TempPal);
 	}
-	
-	if (TempImage != iCurImage)
+
+	if (TempImage != NULL && TempImage != iCurImage)
 		ilCloseImage(TempImage);
 
-	return IL_TRUE;
+	return Ret;
 }
 
 
-- 
2.43.0


From 48eb6e4ec608ac7974512f0b9ff925ad4736103a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:46 +0000
Subject: [PATCH 070/115] fix: BMP saver no longer closes the current image on
 errors

---
 DevIL/src-IL/src/il_bmp.cpp | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/DevIL/src-IL/src/il_bmp.cpp b/DevIL/src-IL/src/il_bmp.cpp
index 70a71d2..ba5faed 100644
--- a/DevIL/src-IL/src/il_bmp.cpp
+++ b/DevIL/src-IL/src/il_bmp.cpp
@@ -949,21 +949,19 @@ ILboolean iSaveBitmapInternal()
 			TempImage = iConvertImage(iCurImage, IL_BGR, IL_UNSIGNED_BYTE);
 		}
 		if (TempImage == NULL)
-			return IL_FALSE;
+			goto error;
 	} else if (iCurImage->Bpc > 1) {
 		TempImage = iConvertImage(iCurImage, iCurImage->Format, IL_UNSIGNED_BYTE);
 		if (TempImage == NULL)
-			return IL_FALSE;
+			goto error;
 	} else {
 		TempImage = iCurImage;
 	}
 
 	if (TempImage->Origin != IL_ORIGIN_LOWER_LEFT) {
 		TempData = iGetFlipped(TempImage);
-		if (TempData == NULL) {
-			ilCloseImage(TempImage);
-			return IL_FALSE;
-		}
+		if (TempData == NULL)
+			goto error;
 	} else {
 		TempData = TempImage->Data;
 	}
@@ -1036,6 +1034,15 @@ ILboolean iSaveBitmapInternal()
 	iseekw(FileSize, IL_SEEK_SET);
 	
 	return IL_TRUE;
+
+error:
+	if (TempPal != &iCurImage->Pal) {
+		ifree(TempPal->Palette);
+		ifree(TempPal);
+	}
+	if (TempImage != NULL && TempImage != iCurImage)
+		ilCloseImage(TempImage);
+	return IL_FALSE;
 }
 
 
-- 
2.43.0


From 0145db7d949ba79ab0c2369ac1f39b9a1c796063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:46 +0000
Subject: [PATCH 071/115] fix: XPM and TIFF loads fail when memory runs out
 halfway

---
 DevIL/src-IL/src/il_tiff.cpp | 12 +++++++++---
 DevIL/src-IL/src/il_xpm.cpp  | 20 +++++++++++---------
 2 files changed, 20 insertions(+), 12 deletions(-)

diff --git a/DevIL/src-IL/src/il_tiff.cpp b/DevIL/src-IL/src/il_tiff.cpp
index cc63115..d394218 100644
--- a/DevIL/src-IL/src/il_tiff.cpp
+++ b/DevIL/src-IL/src/il_tiff.cpp
@@ -373,6 +373,7 @@ ILboolean iLoadTiffInternal()
 	tsize_t	 linesize;
 	ILuint	 i, j, ProfileLen, DirCount = 0;
 	void	 *Buffer;
+	ILboolean Converted;
 	ILubyte  *Line, *Dat, Bit;
 	ILimage  *Image, *TempImage;
 	ILushort si;
@@ -579,6 +580,7 @@ ILboolean iLoadTiffInternal()
 			 are handled right now, keep it :)
 			 */
 			//TODO: put switch into the loop??
+			Converted = IL_TRUE;
 			TempImage = iCurImage;
 			iCurImage = Image; //ilConvertImage() converts iCurImage
 			switch (samplesperpixel)
@@ -586,19 +588,23 @@ ILboolean iLoadTiffInternal()
 				case 1:
 					//added 2003-08-31 to keep palettized tiffs colored
 					if(photometric != 3)
-						ilConvertImage(IL_LUMINANCE, IL_UNSIGNED_BYTE);
+						Converted = ilConvertImage(IL_LUMINANCE, IL_UNSIGNED_BYTE);
 					else //strip alpha as tiff supports no alpha palettes
-						ilConvertImage(IL_RGB, IL_UNSIGNED_BYTE);
+						Converted = ilConvertImage(IL_RGB, IL_UNSIGNED_BYTE);
 					break;
 
 				case 3:
 					//TODO: why the ifdef??
 #ifdef __LITTLE_ENDIAN__
-					ilConvertImage(IL_RGB, IL_UNSIGNED_BYTE);
+					Converted = ilConvertImage(IL_RGB, IL_UNSIGNED_BYTE);
 #endif
 					break;
 			}
 			iCurImage = TempImage;
+			if (!Converted) {
+				TIFFClose(tif);
+				return IL_FALSE;
+			}
 
 		} //else not directly supported format
 
diff --git a/DevIL/src-IL/src/il_xpm.cpp b/DevIL/src-IL/src/il_xpm.cpp
index 8326290..0b0c710 100644
--- a/DevIL/src-IL/src/il_xpm.cpp
+++ b/DevIL/src-IL/src/il_xpm.cpp
@@ -195,19 +195,21 @@ void XpmDestroyHashTable(XPMHASHENTRY **Table)
 }
 
 
-void XpmInsertEntry(XPMHASHENTRY **Table, const ILubyte* Name, int Len, XpmPixel Colour)
+ILboolean XpmInsertEntry(XPMHASHENTRY **Table, const ILubyte* Name, int Len, XpmPixel Colour)
 {
 	XPMHASHENTRY* NewEntry;
 	ILuint Index;
 	Index = XpmHash(Name, Len);
 
 	NewEntry = (XPMHASHENTRY*)ialloc(sizeof(XPMHASHENTRY));
-	if (NewEntry != NULL) {
-		NewEntry->Next = Table[Index];
-		memcpy(NewEntry->ColourName, Name, Len);
-		memcpy(NewEntry->ColourValue, Colour, sizeof(XpmPixel));
-		Table[Index] = NewEntry;
-	}
+	if (NewEntry == NULL)
+		return IL_FALSE;
+
+	NewEntry->Next = Table[Index];
+	memcpy(NewEntry->ColourName, Name, Len);
+	memcpy(NewEntry->ColourValue, Colour, sizeof(XpmPixel));
+	Table[Index] = NewEntry;
+	return IL_TRUE;
 }
 
 
@@ -472,7 +474,7 @@ ILboolean XpmGetColour(ILubyte *Buffer, ILint Size, int Len, XpmPixel* Colours)
 #ifndef XPM_DONT_USE_HASHTABLE
 		memset(Colour, 0, sizeof(Colour));
 		Colour[3] = 255;
-		XpmInsertEntry(Table, Name, Len, Colour);
+		return XpmInsertEntry(Table, Name, Len, Colour);
 #else
 		memset(Colours[Name[0]], 0, sizeof(Colour));
 		Colours[Name[0]][3] = 255;
@@ -537,7 +539,7 @@ ILboolean XpmGetColour(ILubyte *Buffer, ILint Size, int Len, XpmPixel* Colours)
 
 
 #ifndef XPM_DONT_USE_HASHTABLE
-	XpmInsertEntry(Table, Name, Len, Colour);
+	return XpmInsertEntry(Table, Name, Len, Colour);
 #else
 	memcpy(Colours[Name[0]], Colour, sizeof(Colour));
 #endif
-- 
2.43.0


From cadcc0e39fd59e0080acc7ef56dd6e90630d7ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:46 +0000
Subject: [PATCH 072/115] fix: DDS cubemaps and DXTC surfaces keep hold of
 their own buffers

---
 DevIL/src-IL/src/il_dds.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/DevIL/src-IL/src/il_dds.cpp b/DevIL/src-IL/src/il_dds.cpp
index 2999e65..aeee0e1 100644
--- a/DevIL/src-IL/src/il_dds.cpp
+++ b/DevIL/src-IL/src/il_dds.cpp
@@ -337,8 +337,11 @@ ILboolean iLoadDdsCubemapInternal(ILuint CompFormat, ILboolean IsDXT10)
 		if (Head.ddsCaps2 & CubemapDirections[i]) {
 			if (NumFaces != 0) {
 				Image->Faces = ilNewImage(Width, Height, Depth, Channels, Bpc);
-				if (Image->Faces == NULL)
+				if (Image->Faces == NULL) {
+					ifree(CompData);
+					CompData = NULL;
 					return IL_FALSE;
+				}
 
 				Image = Image->Faces;
 
@@ -2153,6 +2156,7 @@ ILAPI ILboolean ILAPIENTRY ilDxtcDataToSurface()
 {
 	ILuint CompFormat, NumBlocks, BlockSize;
 	ILubyte *NewData;
+	ILboolean Decompressed;
 
 	if (iCurImage == NULL || iCurImage->DxtcData == NULL) {
 		ilSetError(IL_INVALID_PARAM);
@@ -2208,7 +2212,9 @@ ILAPI ILboolean ILAPIENTRY ilDxtcDataToSurface()
 		case IL_DXT5: CompFormat = PF_DXT5; break;
 	}
 	CompData = iCurImage->DxtcData;
-	if (!DdsDecompress(CompFormat, IL_FALSE)) //@TODO: globals suck...fix this
+	Decompressed = DdsDecompress(CompFormat, IL_FALSE); //@TODO: globals suck...fix this
+	CompData = NULL;  // The image still owns the data.
+	if (!Decompressed)
 		return IL_FALSE;
 	//@TODO: Should we ever expect this to be IL_TRUE?
 
-- 
2.43.0


From 93c49d9fc9c14011ec084b5494acdaf5b26c2250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:46 +0000
Subject: [PATCH 073/115] fix: scaling refuses images without pixels

---
 DevIL/src-ILU/src/ilu_filter_rcg.cpp | 3 ++-
 DevIL/src-ILU/src/ilu_scale.cpp      | 6 ++++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/DevIL/src-ILU/src/ilu_filter_rcg.cpp b/DevIL/src-ILU/src/ilu_filter_rcg.cpp
index 8aca4f7..67f31d2 100644
--- a/DevIL/src-ILU/src/ilu_filter_rcg.cpp
+++ b/DevIL/src-ILU/src/ilu_filter_rcg.cpp
@@ -404,7 +404,8 @@ ILuint iluScaleAdvanced(ILuint Width, ILuint Height, ILenum Filter)
 	// Not supported yet.
 	if (iluCurImage->Type != IL_UNSIGNED_BYTE ||
 		iluCurImage->Format == IL_COLOUR_INDEX ||
-		iluCurImage->Depth > 1) {
+		iluCurImage->Depth > 1 ||
+		iluCurImage->SizeOfData == 0) {
 			ilSetError(ILU_ILLEGAL_OPERATION);
 			return IL_FALSE;
 	}
diff --git a/DevIL/src-ILU/src/ilu_scale.cpp b/DevIL/src-ILU/src/ilu_scale.cpp
index 67c6beb..6526263 100644
--- a/DevIL/src-ILU/src/ilu_scale.cpp
+++ b/DevIL/src-ILU/src/ilu_scale.cpp
@@ -244,6 +244,12 @@ ILAPI ILimage* ILAPIENTRY iluScale_(ILimage *Image, ILuint Width, ILuint Height,
 {
 	ILimage	*Scaled, *ToScale = Image;
 
+	// Nothing to take samples from
+	if (Image->Data == NULL || Image->SizeOfData == 0) {
+		ilSetError(ILU_ILLEGAL_OPERATION);
+		return NULL;
+	}
+
 	// Indices cannot be mixed.
 	if (Image->Format == IL_COLOUR_INDEX && iluFilter != ILU_NEAREST) {
 		ToScale = iConvertImage(Image, ilGetPalBaseType(Image->Pal.PalType), IL_UNSIGNED_BYTE);
-- 
2.43.0


From 076aa2c0b7d722ba4fe2e533fb17a0540415deb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:46 +0000
Subject: [PATCH 074/115] fix: ilResizeImage changes nothing without memory;
 empty images are not copied

---
 DevIL/src-IL/src/il_devil.cpp | 33 +++++++++++++++++++++++++--------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/DevIL/src-IL/src/il_devil.cpp b/DevIL/src-IL/src/il_devil.cpp
index 8032158..fe49858 100644
--- a/DevIL/src-IL/src/il_devil.cpp
+++ b/DevIL/src-IL/src/il_devil.cpp
@@ -876,10 +876,12 @@ ILAPI ILboolean ILAPIENTRY ilCopyImageAttr(ILimage *Dest, ILimage *Src)
 		return IL_FALSE;
 	}
 	
-	if (Dest->Pal.Palette && Dest->Pal.PalSize && Dest->Pal.PalType != IL_PAL_NONE) {
+	if (Dest->Pal.Palette) {
 		ifree(Dest->Pal.Palette);
 		Dest->Pal.Palette = NULL;
 	}
+	Dest->Pal.PalSize = 0;
+	Dest->Pal.PalType = IL_PAL_NONE;
 	if (Dest->Faces) {
 		ilCloseImage(Dest->Faces);
 		Dest->Faces = NULL;
@@ -983,6 +985,11 @@ ILboolean ILAPIENTRY ilCopyImage(ILuint Src)
 	iCurImage = DestImage;  // Could be a subimage
 	if (SrcImage == DestImage)
 		return IL_TRUE;
+	// An image that could not be made has no pixels to copy.
+	if (SrcImage->SizeOfData == 0) {
+		ilSetError(IL_ILLEGAL_OPERATION);
+		return IL_FALSE;
+	}
 	if (!ilTexImage_(DestImage, SrcImage->Width, SrcImage->Height, SrcImage->Depth, SrcImage->Bpp, SrcImage->Format, SrcImage->Type, SrcImage->Data))
 		return IL_FALSE;
 	
@@ -1035,7 +1042,10 @@ ILuint ILAPIENTRY ilCloneCurImage()
 	CurName = ilGetCurName();
 	
 	ilBindImage(Id);
-	Copied = ilTexImage(CurImage->Width, CurImage->Height, CurImage->Depth, CurImage->Bpp, CurImage->Format, CurImage->Type, CurImage->Data)
+	// An image that could not be made has no pixels to copy.
+	if (CurImage->SizeOfData == 0)
+		ilSetError(IL_ILLEGAL_OPERATION);
+	Copied = CurImage->SizeOfData != 0 && ilTexImage(CurImage->Width, CurImage->Height, CurImage->Depth, CurImage->Bpp, CurImage->Format, CurImage->Type, CurImage->Data)
 		&& ilCopyImageAttr(iCurImage, CurImage);
 	
 	ilBindImage(CurName);
@@ -1061,6 +1071,16 @@ ILAPI ILboolean ILAPIENTRY ilResizeImage(ILimage *Image, ILuint Width, ILuint He
 	if (!iCheckImageParams(Width, Height, Depth, Bpp, ilGetTypeBpc(Bpc)))
 		return IL_FALSE;
 
+	// Like new images, none is without pixels.
+	if (Width  == 0) Width = 1;
+	if (Height == 0) Height = 1;
+	if (Depth  == 0) Depth = 1;
+
+	// Without memory for the new size, the image stays as it is.
+	ILubyte *Data = (ILubyte*)ialloc((ILsizei)Bpp * Bpc * Width * Height * Depth);
+	if (Data == NULL)
+		return IL_FALSE;
+
 	if (Image->Data != NULL)
 		ifree(Image->Data);
 	if (Image->DxtcData) {
@@ -1069,7 +1089,7 @@ ILAPI ILboolean ILAPIENTRY ilResizeImage(ILimage *Image, ILuint Width, ILuint He
 		Image->DxtcFormat = IL_DXT_NO_COMP;
 		Image->DxtcSize = 0;
 	}
-	
+
 	Image->Depth = Depth;
 	Image->Width = Width;
 	Image->Height = Height;
@@ -1079,10 +1099,7 @@ ILAPI ILboolean ILAPIENTRY ilResizeImage(ILimage *Image, ILuint Width, ILuint He
 	Image->SizeOfPlane = Image->Bps * Height;
 	Image->SizeOfData = Image->SizeOfPlane * Depth;
 	
-	Image->Data = (ILubyte*)ialloc(Image->SizeOfData);
-	if (Image->Data == NULL) {
-		return IL_FALSE;
-	}
-	
+	Image->Data = Data;
+
 	return IL_TRUE;
 }
-- 
2.43.0


From 4fbdbfe1cbf8e6504db148ebb4580e34c05a30c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:29 +0000
Subject: [PATCH 075/115] fix: raw data loads, handler registration and
 palettes refuse NULL with an error

---
 DevIL/src-IL/src/il_rawdata.cpp  |  5 +++++
 DevIL/src-IL/src/il_register.cpp | 20 +++++++++++++++++++-
 2 files changed, 24 insertions(+), 1 deletion(-)

diff --git a/DevIL/src-IL/src/il_rawdata.cpp b/DevIL/src-IL/src/il_rawdata.cpp
index bc589e2..dd72f70 100644
--- a/DevIL/src-IL/src/il_rawdata.cpp
+++ b/DevIL/src-IL/src/il_rawdata.cpp
@@ -61,6 +61,11 @@ ILboolean ILAPIENTRY ilLoadDataF(ILHANDLE File, ILuint Width, ILuint Height, ILu
 //! Reads from a raw data memory "lump"
 ILboolean ILAPIENTRY ilLoadDataL(void *Lump, ILuint Size, ILuint Width, ILuint Height, ILuint Depth, ILubyte Bpp)
 {
+	if (Lump == NULL) {
+		ilSetError(IL_INVALID_PARAM);
+		return IL_FALSE;
+	}
+
 	iSetInputLump(Lump, Size);
 	return iLoadDataInternal(Width, Height, Depth, Bpp);
 }
diff --git a/DevIL/src-IL/src/il_register.cpp b/DevIL/src-IL/src/il_register.cpp
index 9854f8e..849a13f 100644
--- a/DevIL/src-IL/src/il_register.cpp
+++ b/DevIL/src-IL/src/il_register.cpp
@@ -26,6 +26,11 @@ iFormatS *SaveProcs = NULL;
 ILboolean ILAPIENTRY ilRegisterLoad(ILconst_string Ext, IL_LOADPROC Load) {
 	iFormatL *TempNode, *NewNode;
 
+	if (Ext == NULL || Load == NULL) {
+		ilSetError(IL_INVALID_PARAM);
+		return IL_FALSE;
+	}
+
 	TempNode = LoadProcs;
 	if (TempNode != NULL) {
 		while (TempNode->Next != NULL) {
@@ -60,6 +65,11 @@ ILboolean ILAPIENTRY ilRegisterSave(ILconst_string Ext, IL_SAVEPROC Save)
 {
 	iFormatS *TempNode, *NewNode;
 
+	if (Ext == NULL || Save == NULL) {
+		ilSetError(IL_INVALID_PARAM);
+		return IL_FALSE;
+	}
+
 	TempNode = SaveProcs;
 	if (TempNode != NULL) {
 		while (TempNode->Next != NULL) {
@@ -115,6 +125,7 @@ ILboolean ILAPIENTRY ilRemoveLoad(ILconst_string Ext)
 		TempNode = TempNode->Next;
 	}
 
+	ilSetError(IL_INVALID_PARAM);  // Not registered
 	return IL_FALSE;
 }
 
@@ -144,6 +155,7 @@ ILboolean ILAPIENTRY ilRemoveSave(ILconst_string Ext)
 		TempNode = TempNode->Next;
 	}
 
+	ilSetError(IL_INVALID_PARAM);  // Not registered
 	return IL_FALSE;
 }
 
@@ -388,8 +400,14 @@ void ILAPIENTRY ilRegisterType(ILenum Type)
 
 void ILAPIENTRY ilRegisterPal(void *Pal, ILuint Size, ILenum Type)
 {
-	ILubyte *Palette = (ILubyte*)icalloc(Size, 1);
+	ILubyte *Palette;
+
+	if (Size == 0 || ilGetBppPal(Type) == 0) {
+		ilSetError(IL_INVALID_PARAM);
+		return;
+	}
 
+	Palette = (ILubyte*)icalloc(Size, 1);
 	if (Palette == NULL)
 		return;
 
-- 
2.43.0


From f5e1855df7231f25fbcbb0aa21377bde8a7d7716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:29 +0000
Subject: [PATCH 076/115] fix: ilCopyPixels and ilGetDXTCData report unknown
 formats

---
 DevIL/src-IL/src/il_dds-save.cpp | 2 ++
 DevIL/src-IL/src/il_manip.cpp    | 4 ++++
 2 files changed, 6 insertions(+)

diff --git a/DevIL/src-IL/src/il_dds-save.cpp b/DevIL/src-IL/src/il_dds-save.cpp
index 6208805..737e5e9 100644
--- a/DevIL/src-IL/src/il_dds-save.cpp
+++ b/DevIL/src-IL/src/il_dds-save.cpp
@@ -353,6 +353,8 @@ ILuint ILAPIENTRY ilGetDXTCData(void *Buffer, ILuint BufferSize, ILenum DXTCForm
 		memcpy(Buffer, iCurImage->DxtcData, IL_MIN(BufferSize, iCurImage->DxtcSize));
 		return IL_MIN(BufferSize, iCurImage->DxtcSize);
 	}
+	if (ilGetDXTCData(NULL, 0, DXTCFormat) == 0)  // Not a format that can be written
+		return 0;
 
 	if (iCurImage->Origin != IL_ORIGIN_UPPER_LEFT) {
 		CurData = iCurImage->Data;
diff --git a/DevIL/src-IL/src/il_manip.cpp b/DevIL/src-IL/src/il_manip.cpp
index 8ff63df..09601d5 100644
--- a/DevIL/src-IL/src/il_manip.cpp
+++ b/DevIL/src-IL/src/il_manip.cpp
@@ -551,6 +551,10 @@ ILuint ILAPIENTRY ilCopyPixels(ILuint XOff, ILuint YOff, ILuint ZOff, ILuint Wid
 		ilSetError(IL_INVALID_PARAM);
 		return 0;
 	}
+	if (ilGetBppFormat(Format) == 0 || ilGetBpcType(Type) == 0) {
+		ilSetError(IL_INVALID_PARAM);
+		return 0;
+	}
 	DestSize = Width * Height * Depth * ilGetBppFormat(Format) * ilGetBpcType(Type);
 	if (DestSize == 0) {
 		return DestSize;
-- 
2.43.0


From 222f3795d9cbc9db3d4d24071b3bab834d482547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:29 +0000
Subject: [PATCH 077/115] fix: ilDxtcDataToImage and ilImageToDxtcData keep the
 selection

---
 DevIL/src-IL/src/il_dds.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/DevIL/src-IL/src/il_dds.cpp b/DevIL/src-IL/src/il_dds.cpp
index aeee0e1..779fdda 100644
--- a/DevIL/src-IL/src/il_dds.cpp
+++ b/DevIL/src-IL/src/il_dds.cpp
@@ -2227,11 +2227,14 @@ ILAPI ILboolean ILAPIENTRY ilDxtcDataToSurface()
 ILAPI ILboolean ILAPIENTRY ilDxtcDataToImage()
 {
 	ILint i, j;
+	ILimage *Selected = iCurImage;  // Could be a subimage
 	ILuint ImgID = ilGetInteger(IL_CUR_IMAGE);
-	ILint ImgCount = ilGetInteger(IL_NUM_IMAGES);
+	ILint ImgCount;
 	ILint MipCount;
 	ILboolean ret = IL_TRUE;
 
+	ilBindImage(ImgID);
+	ImgCount = ilGetInteger(IL_NUM_IMAGES);
 	for(i = 0; i <= ImgCount; ++i) {
 		ilBindImage(ImgID);
 		ilActiveImage(i);
@@ -2246,7 +2249,8 @@ ILAPI ILboolean ILAPIENTRY ilDxtcDataToImage()
 				ret = IL_FALSE;
 		}
 	}
-    ilBindImage(ImgID);
+	ilBindImage(ImgID);
+	iCurImage = Selected;
 
 	return ret;
 }
@@ -2286,11 +2290,14 @@ ILAPI ILboolean ILAPIENTRY ilSurfaceToDxtcData(ILenum Format)
 ILAPI ILboolean ILAPIENTRY ilImageToDxtcData(ILenum Format)
 {
 	ILint i, j;
+	ILimage *Selected = iCurImage;  // Could be a subimage
 	ILuint ImgID = ilGetInteger(IL_CUR_IMAGE);
-	ILint ImgCount = ilGetInteger(IL_NUM_IMAGES);
+	ILint ImgCount;
 	ILint MipCount;
 	ILboolean ret = IL_TRUE;
 
+	ilBindImage(ImgID);
+	ImgCount = ilGetInteger(IL_NUM_IMAGES);
 	for (i = 0; i <= ImgCount; ++i) {
 		ilBindImage(ImgID);
 		ilActiveImage(i);
@@ -2306,6 +2313,7 @@ ILAPI ILboolean ILAPIENTRY ilImageToDxtcData(ILenum Format)
 		}
 	}
 	ilBindImage(ImgID);
+	iCurImage = Selected;
 
 	return ret;
 }
-- 
2.43.0


From 857e6f18a56697a318ce5ff61f4af5a86e0537be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:41 +0000
Subject: [PATCH 078/115] fix: iluGetIntegerv refuses NULL

---
 DevIL/src-ILU/src/ilu_states.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/DevIL/src-ILU/src/ilu_states.cpp b/DevIL/src-ILU/src/ilu_states.cpp
index f3a998c..1a8439d 100644
--- a/DevIL/src-ILU/src/ilu_states.cpp
+++ b/DevIL/src-ILU/src/ilu_states.cpp
@@ -38,6 +38,11 @@ ILstring ILAPIENTRY iluGetString(ILenum StringName)
 
 void ILAPIENTRY iluGetIntegerv(ILenum Mode, ILint *Param)
 {
+	if (Param == NULL) {
+		ilSetError(ILU_INVALID_PARAM);
+		return;
+	}
+
 	switch (Mode)
 	{
 		case ILU_VERSION_NUM:
-- 
2.43.0


From 4e024b666becfa7a5dff69285a45e7ecbdaba2a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:58 +0000
Subject: [PATCH 079/115] fix: iluGetImageInfo fills in CubeFlags

---
 DevIL/src-ILU/src/ilu_utilities.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/DevIL/src-ILU/src/ilu_utilities.cpp b/DevIL/src-ILU/src/ilu_utilities.cpp
index 1e26560..872553d 100644
--- a/DevIL/src-ILU/src/ilu_utilities.cpp
+++ b/DevIL/src-ILU/src/ilu_utilities.cpp
@@ -52,6 +52,7 @@ void ILAPIENTRY iluGetImageInfo(ILinfo *Info)
 	Info->Palette		= iluCurImage->Pal.Palette;
 	Info->PalType		= iluCurImage->Pal.PalType;
 	Info->PalSize		= iluCurImage->Pal.PalSize;
+	Info->CubeFlags		= iluCurImage->CubeFlags;
 	iGetIntegervImage(iluCurImage, IL_NUM_IMAGES,             
 	                        (ILint*)&Info->NumNext);
 	iGetIntegervImage(iluCurImage, IL_NUM_MIPMAPS, 
-- 
2.43.0


From d17442b4fec8588b376005bc49068dbf49713f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:46 +0000
Subject: [PATCH 080/115] fix: DXT decoding widens six-bit green by repeating
 its upper bits

---
 DevIL/src-IL/src/il_dds.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/DevIL/src-IL/src/il_dds.cpp b/DevIL/src-IL/src/il_dds.cpp
index 779fdda..f43904f 100644
--- a/DevIL/src-IL/src/il_dds.cpp
+++ b/DevIL/src-IL/src/il_dds.cpp
@@ -1228,11 +1228,11 @@ void DxtcReadColors(const ILubyte* Data, Color8888* Out)
 	r1 = (Data[3] & 0xF8) >> 3;
 
 	Out[0].r = r0 << 3 | r0 >> 2;
-	Out[0].g = g0 << 2 | g0 >> 3;
+	Out[0].g = g0 << 2 | g0 >> 4;
 	Out[0].b = b0 << 3 | b0 >> 2;
 
 	Out[1].r = r1 << 3 | r1 >> 2;
-	Out[1].g = g1 << 2 | g1 >> 3;
+	Out[1].g = g1 << 2 | g1 >> 4;
 	Out[1].b = b1 << 3 | b1 >> 2;
 }
 
@@ -1246,7 +1246,7 @@ void DxtcReadColor(ILushort Data, Color8888* Out)
 	r = (Data & 0xF800) >> 11;
 
 	Out->r = r << 3 | r >> 2;
-	Out->g = g << 2 | g >> 3;
+	Out->g = g << 2 | g >> 4;
 	Out->b = b << 3 | b >> 2;
 }
 
-- 
2.43.0


From e05c88b745c176005b2485c90cd531165a11f350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:21 +0000
Subject: [PATCH 081/115] fix: DXT endpoints differ when a block has different
 colours of equal weight

---
 DevIL/src-IL/src/il_dds-save.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/DevIL/src-IL/src/il_dds-save.cpp b/DevIL/src-IL/src/il_dds-save.cpp
index 737e5e9..7a4e2ce 100644
--- a/DevIL/src-IL/src/il_dds-save.cpp
+++ b/DevIL/src-IL/src/il_dds-save.cpp
@@ -1192,6 +1192,13 @@ void ChooseEndpoints(ILushort *Block, ILushort *ex0, ILushort *ex1)
 		if (NormSquared(&Colours[i]) > NormSquared(&Colours[Highest]))
  			Highest = i;
 	}
+	if (NormSquared(&Colours[Highest]) == NormSquared(&Colours[Lowest])) {
+		// All colours weigh the same, so take the ones that differ most.
+		for (i = 0; i < 16; i++) {
+			if (Distance(&Colours[i], &Colours[Lowest]) > Distance(&Colours[Highest], &Colours[Lowest]))
+				Highest = i;
+		}
+	}
 	*ex0 = Block[Highest];
 	*ex1 = Block[Lowest];
 }
-- 
2.43.0


From a4382d2c87e8476790d3a177d2b2e5f0f6783126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:54 +0000
Subject: [PATCH 082/115] fix: ilGetInteger answers IL_PALETTE_SIZE

---
 DevIL/src-IL/src/il_states.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/DevIL/src-IL/src/il_states.cpp b/DevIL/src-IL/src/il_states.cpp
index f04f025..7a6528e 100644
--- a/DevIL/src-IL/src/il_states.cpp
+++ b/DevIL/src-IL/src/il_states.cpp
@@ -684,6 +684,12 @@ void ILAPIENTRY iGetIntegervImage(ILimage *Image, ILenum Mode, ILint *Param)
              else
                   *Param = Image->Pal.PalSize / ilGetBppPal(Image->Pal.PalType);
              break;
+        case IL_PALETTE_SIZE:
+             if (!Image->Pal.Palette || Image->Pal.PalType == IL_PAL_NONE)
+                  *Param = 0;
+             else
+                  *Param = Image->Pal.PalSize;
+             break;
         case IL_PALETTE_BASE_TYPE:
              switch (Image->Pal.PalType)
              {
-- 
2.43.0


From 0f81b9a9b901144cf416173e0c2df52d6af9d71c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:30 +0000
Subject: [PATCH 083/115] fix: a registered extension is found when it is the
 first of the list, and handlers without a name are not kept

---
 DevIL/src-IL/src/il_register.cpp | 38 ++++++++++++++++++++------------
 1 file changed, 24 insertions(+), 14 deletions(-)

diff --git a/DevIL/src-IL/src/il_register.cpp b/DevIL/src-IL/src/il_register.cpp
index 849a13f..b61222f 100644
--- a/DevIL/src-IL/src/il_register.cpp
+++ b/DevIL/src-IL/src/il_register.cpp
@@ -32,13 +32,13 @@ ILboolean ILAPIENTRY ilRegisterLoad(ILconst_string Ext, IL_LOADPROC Load) {
 	}
 
 	TempNode = LoadProcs;
-	if (TempNode != NULL) {
-		while (TempNode->Next != NULL) {
-			TempNode = TempNode->Next;
-			if (!iStrCmp(TempNode->Ext, Ext)) {  // already registered
-				return IL_TRUE;
-			}
+	while (TempNode != NULL) {
+		if (!iStrCmp(TempNode->Ext, Ext)) {  // already registered
+			return IL_TRUE;
 		}
+		if (TempNode->Next == NULL)
+			break;
+		TempNode = TempNode->Next;
 	}
 
 	NewNode = (iFormatL*)ialloc(sizeof(iFormatL));
@@ -46,6 +46,12 @@ ILboolean ILAPIENTRY ilRegisterLoad(ILconst_string Ext, IL_LOADPROC Load) {
 		return IL_FALSE;
 	}
 
+	NewNode->Ext = ilStrDup(Ext);
+	if (NewNode->Ext == NULL) {
+		ifree(NewNode);
+		return IL_FALSE;
+	}
+
 	if (LoadProcs == NULL) {
 		LoadProcs = NewNode;
 	}
@@ -53,7 +59,6 @@ ILboolean ILAPIENTRY ilRegisterLoad(ILconst_string Ext, IL_LOADPROC Load) {
 		TempNode->Next = NewNode;
 	}
 
-	NewNode->Ext = ilStrDup(Ext);
 	NewNode->Load = Load;
 	NewNode->Next = NULL;
 
@@ -71,13 +76,13 @@ ILboolean ILAPIENTRY ilRegisterSave(ILconst_string Ext, IL_SAVEPROC Save)
 	}
 
 	TempNode = SaveProcs;
-	if (TempNode != NULL) {
-		while (TempNode->Next != NULL) {
-			TempNode = TempNode->Next;
-			if (!iStrCmp(TempNode->Ext, Ext)) {  // already registered
-				return IL_TRUE;
-			}
+	while (TempNode != NULL) {
+		if (!iStrCmp(TempNode->Ext, Ext)) {  // already registered
+			return IL_TRUE;
 		}
+		if (TempNode->Next == NULL)
+			break;
+		TempNode = TempNode->Next;
 	}
 
 	NewNode = (iFormatS*)ialloc(sizeof(iFormatL));
@@ -85,6 +90,12 @@ ILboolean ILAPIENTRY ilRegisterSave(ILconst_string Ext, IL_SAVEPROC Save)
 		return IL_FALSE;
 	}
 
+	NewNode->Ext = ilStrDup(Ext);
+	if (NewNode->Ext == NULL) {
+		ifree(NewNode);
+		return IL_FALSE;
+	}
+
 	if (SaveProcs == NULL) {
 		SaveProcs = NewNode;
 	}
@@ -92,7 +103,6 @@ ILboolean ILAPIENTRY ilRegisterSave(ILconst_string Ext, IL_SAVEPROC Save)
 		TempNode->Next = NewNode;
 	}
 
-	NewNode->Ext = ilStrDup(Ext);
 	NewNode->Save = Save;
 	NewNode->Next = NULL;
 
-- 
2.43.0


From d7074e9d4521eae3f8233e49ebc1b26d986ec5e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:43 +0000
Subject: [PATCH 084/115] fix: negative channels are saved as 0 in HDR files

---
 DevIL/src-IL/src/il_hdr.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/DevIL/src-IL/src/il_hdr.cpp b/DevIL/src-IL/src/il_hdr.cpp
index 523cd39..267bdbf 100644
--- a/DevIL/src-IL/src/il_hdr.cpp
+++ b/DevIL/src-IL/src/il_hdr.cpp
@@ -448,6 +448,11 @@ float2rgbe(unsigned char rgbe[4], float red, float green, float blue)
   float v;
   int e;
 
+  // RGBE has no negative colours.
+  if (red < 0) red = 0;
+  if (green < 0) green = 0;
+  if (blue < 0) blue = 0;
+
   v = red;
   if (green > v) v = green;
   if (blue > v) v = blue;
-- 
2.43.0


From 49a88fc45800037866e24fbacf50b9aac9b69da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:43 +0000
Subject: [PATCH 085/115] fix: six images are only saved as a DDS cube map when
 all six faces are there

---
 DevIL/src-IL/src/il_dds-save.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/DevIL/src-IL/src/il_dds-save.cpp b/DevIL/src-IL/src/il_dds-save.cpp
index 7a4e2ce..8272dfc 100644
--- a/DevIL/src-IL/src/il_dds-save.cpp
+++ b/DevIL/src-IL/src/il_dds-save.cpp
@@ -120,10 +120,13 @@ ILuint GetCubemapInfo(ILimage* image, ILint* faces)
 
 	for (i = 0; i < 6; ++i)
 		if (indices[i] == -1)
+			return 0; //not a face
+
+	for (i = 0; i < 6; ++i)
+		if (!(ret & CubemapDirections[i]))
 			return 0; //one face not found
 
-	if (ret != 0) //should always be true
-		ret |= DDS_CUBEMAP;
+	ret |= DDS_CUBEMAP;
 
 	for (i = 0; i < 6; ++i)
 		faces[indices[i]] = i;
-- 
2.43.0


From a6cdfc139c5675ebabf4dc1769821d2e73a92052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:43 +0000
Subject: [PATCH 086/115] fix: RXGB endpoints are widened by repeating their
 upper bits, so white is white

---
 DevIL/src-IL/src/il_dds.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/DevIL/src-IL/src/il_dds.cpp b/DevIL/src-IL/src/il_dds.cpp
index f43904f..7857277 100644
--- a/DevIL/src-IL/src/il_dds.cpp
+++ b/DevIL/src-IL/src/il_dds.cpp
@@ -1654,14 +1654,14 @@ ILboolean DecompressRXGB()
 				bitmask = ((ILuint*)Temp)[1];
 				Temp += 8;
 
-				colours[0].r = color_0->nRed << 3;
-				colours[0].g = color_0->nGreen << 2;
-				colours[0].b = color_0->nBlue << 3;
+				colours[0].r = color_0->nRed << 3 | color_0->nRed >> 2;
+				colours[0].g = color_0->nGreen << 2 | color_0->nGreen >> 4;
+				colours[0].b = color_0->nBlue << 3 | color_0->nBlue >> 2;
 				colours[0].a = 0xFF;
 
-				colours[1].r = color_1->nRed << 3;
-				colours[1].g = color_1->nGreen << 2;
-				colours[1].b = color_1->nBlue << 3;
+				colours[1].r = color_1->nRed << 3 | color_1->nRed >> 2;
+				colours[1].g = color_1->nGreen << 2 | color_1->nGreen >> 4;
+				colours[1].b = color_1->nBlue << 3 | color_1->nBlue >> 2;
 				colours[1].a = 0xFF;
 
 				// Four-color block: derive the other two colors.    
-- 
2.43.0


From bb544ad2f5c32450142f46a03b5edae7b07f542a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:43 +0000
Subject: [PATCH 087/115] fix: kept ATI1N and 3DC data of DDS mipmaps has the
 right format

---
 DevIL/src-IL/src/il_dds.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/DevIL/src-IL/src/il_dds.cpp b/DevIL/src-IL/src/il_dds.cpp
index 7857277..8ac79eb 100644
--- a/DevIL/src-IL/src/il_dds.cpp
+++ b/DevIL/src-IL/src/il_dds.cpp
@@ -1194,7 +1194,12 @@ ILboolean ReadMipmaps(ILuint CompFormat, ILboolean IsDXT10)
 			Image->DxtcData = (ILubyte*)ialloc(CompSize);
 			if (Image->DxtcData == NULL)
 				goto mip_fail;
-			Image->DxtcFormat = CompFormat - PF_DXT1 + IL_DXT1;
+			if (CompFormat == PF_ATI1N)
+				Image->DxtcFormat = IL_ATI1N;
+			else if (CompFormat == PF_3DC)
+				Image->DxtcFormat = IL_3DC;
+			else
+				Image->DxtcFormat = CompFormat - PF_DXT1 + IL_DXT1;
 			Image->DxtcSize = CompSize;
 			memcpy(Image->DxtcData, CompData, Image->DxtcSize);
 		}
-- 
2.43.0


From 96ebd5dcb3a96ce5051b5baf3b2cf7f55a78036f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:11 +0000
Subject: [PATCH 088/115] fix: HDR scanlines without compression may begin with
 a pixel like the mark of compressed ones

---
 DevIL/src-IL/src/il_hdr.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DevIL/src-IL/src/il_hdr.cpp b/DevIL/src-IL/src/il_hdr.cpp
index 267bdbf..aa5938e 100644
--- a/DevIL/src-IL/src/il_hdr.cpp
+++ b/DevIL/src-IL/src/il_hdr.cpp
@@ -287,7 +287,7 @@ ILboolean ReadScanline(ILubyte *scanline, ILuint w) {
 	//check if the scanline is in the new format
 	//if so, e, r, g, g are stored separated and are
 	//rle-compressed independently.
-	if (r == 2 && g == 2) {
+	if (r == 2 && g == 2 && !(b & 0x80)) {  // The length of a scanline has 15 bits.
 		ILuint length = (b << 8) | e;
 		ILuint j, t, k;
 		if (length > w)
-- 
2.43.0


From aea66e98c4f5fddc6148b7c9f8ee95197f5654e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:22 +0000
Subject: [PATCH 089/115] fix: the TGA extension area is as long as it says

---
 DevIL/src-IL/src/il_targa.cpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/DevIL/src-IL/src/il_targa.cpp b/DevIL/src-IL/src/il_targa.cpp
index 0ba5f57..3e45042 100644
--- a/DevIL/src-IL/src/il_targa.cpp
+++ b/DevIL/src-IL/src/il_targa.cpp
@@ -793,9 +793,6 @@ ILboolean iSaveTargaInternal()
 	SaveLittleUShort((ILushort)Minute);
 	SaveLittleUShort((ILushort)Second);
 	
-	for (i = 0; i < 6; i++) {  // Time created
-		SaveLittleUShort(0);
-	}
 	for (i = 0; i < 41; i++) {	// Job name/ID
 		iputc(0);
 	}
-- 
2.43.0


From a32489f860c19b1ce1499ff60aada068f40224f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:37 +0000
Subject: [PATCH 090/115] fix: TGA, SGI and VTF savers refuse images whose size
 does not fit in the header

---
 DevIL/src-IL/src/il_sgi.cpp   | 5 +++++
 DevIL/src-IL/src/il_targa.cpp | 5 +++++
 DevIL/src-IL/src/il_vtf.cpp   | 5 +++++
 3 files changed, 15 insertions(+)

diff --git a/DevIL/src-IL/src/il_sgi.cpp b/DevIL/src-IL/src/il_sgi.cpp
index 7715ee8..6733e5a 100644
--- a/DevIL/src-IL/src/il_sgi.cpp
+++ b/DevIL/src-IL/src/il_sgi.cpp
@@ -574,6 +574,11 @@ ILboolean iSaveSgiInternal()
 		return IL_FALSE;
 	}
 
+	if (iCurImage->Width > 0xFFFF || iCurImage->Height > 0xFFFF) {  // Does not fit in the header.
+		ilSetError(IL_ILLEGAL_OPERATION);
+		return IL_FALSE;
+	}
+
 	if (iCurImage->Format != IL_LUMINANCE
 	    //while the sgi spec doesn't directly forbid rgb files with 2
 	    //channels, they are quite uncommon and most apps don't support
diff --git a/DevIL/src-IL/src/il_targa.cpp b/DevIL/src-IL/src/il_targa.cpp
index 3e45042..1334d3e 100644
--- a/DevIL/src-IL/src/il_targa.cpp
+++ b/DevIL/src-IL/src/il_targa.cpp
@@ -634,6 +634,11 @@ ILboolean iSaveTargaInternal()
 		goto cleanup;
 	}
 	
+	if (iCurImage->Width > 0xFFFF || iCurImage->Height > 0xFFFF) {  // Does not fit in the header.
+		ilSetError(IL_ILLEGAL_OPERATION);
+		goto cleanup;
+	}
+
 	if (iGetInt(IL_TGA_RLE) == IL_TRUE)
 		Compress = IL_TRUE;
 	else
diff --git a/DevIL/src-IL/src/il_vtf.cpp b/DevIL/src-IL/src/il_vtf.cpp
index 49b5079..c27a211 100644
--- a/DevIL/src-IL/src/il_vtf.cpp
+++ b/DevIL/src-IL/src/il_vtf.cpp
@@ -831,6 +831,11 @@ ILboolean iSaveVtfInternal()
 	ILuint	Format, i, CompSize;
 	ILenum	Compression;
 
+	if (iCurImage->Width > 0xFFFF || iCurImage->Height > 0xFFFF) {  // Does not fit in the header.
+		ilSetError(IL_ILLEGAL_OPERATION);
+		return IL_FALSE;
+	}
+
 	// Find out if the user has specified to use DXT compression.
 	Compression = ilGetInteger(IL_VTF_COMP);
 
-- 
2.43.0


From 7a953fc7efc06035e32ea75690be6e81de430048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:37 +0000
Subject: [PATCH 091/115] fix: TGA and SGI savers write the first slice only,
 as their headers say

---
 DevIL/src-IL/src/il_sgi.cpp   | 2 +-
 DevIL/src-IL/src/il_targa.cpp | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/DevIL/src-IL/src/il_sgi.cpp b/DevIL/src-IL/src/il_sgi.cpp
index 6733e5a..b12a7fb 100644
--- a/DevIL/src-IL/src/il_sgi.cpp
+++ b/DevIL/src-IL/src/il_sgi.cpp
@@ -679,7 +679,7 @@ ILboolean iSaveSgiInternal()
 
 	if (!Compress) {
 		for (c = 0; c < Temp->Bpp; c++) {
-			for (i = c; i < Temp->SizeOfData / Temp->Bpc; i += Temp->Bpp) {
+			for (i = c; i < Temp->SizeOfPlane / Temp->Bpc; i += Temp->Bpp) {
 				// Have to save each colour plane separately.
 				if (Temp->Bpc == 2)
 					SaveBigUShort(((ILushort*)TempData)[i]);
diff --git a/DevIL/src-IL/src/il_targa.cpp b/DevIL/src-IL/src/il_targa.cpp
index 1334d3e..543b967 100644
--- a/DevIL/src-IL/src/il_targa.cpp
+++ b/DevIL/src-IL/src/il_targa.cpp
@@ -769,13 +769,13 @@ ILboolean iSaveTargaInternal()
 	// else do nothing
 	
 	if (!Compress)
-		iwrite(TempData, sizeof(ILubyte), TempImage->SizeOfData);
+		iwrite(TempData, sizeof(ILubyte), TempImage->SizeOfPlane);
 	else {
 		Rle = (ILubyte*)ialloc(TempImage->SizeOfData * 2 + 1);	// max
 		if (Rle == NULL)
 			goto cleanup;
 		RleLen = ilRleCompress((unsigned char*)TempData, TempImage->Width, TempImage->Height,
-		                       TempImage->Depth, TempImage->Bpp, Rle, IL_TGACOMP, NULL);
+		                       1, TempImage->Bpp, Rle, IL_TGACOMP, NULL);
 		
 		iwrite(Rle, 1, RleLen);
 		ifree(Rle);
-- 
2.43.0


From 736cd04dadb5dc4af43422bffea626e426ccf1d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:05 +0000
Subject: [PATCH 092/115] fix: ilSaveCHeader frees its copy of the header
 string

---
 DevIL/src-IL/src/il_header.cpp | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/DevIL/src-IL/src/il_header.cpp b/DevIL/src-IL/src/il_header.cpp
index 6ece912..87ed0f7 100644
--- a/DevIL/src-IL/src/il_header.cpp
+++ b/DevIL/src-IL/src/il_header.cpp
@@ -24,38 +24,43 @@ ILboolean ilSaveCHeader(ILconst_string FileName, char *InternalName)
 	ILuint		i = 0, j;
 	ILimage		*TempImage;
 	const char	*Name;
+	char		*HeaderName;
 
 	if (iCurImage == NULL) {
 		ilSetError(IL_ILLEGAL_OPERATION);
 		return IL_FALSE;
 	}
 
-	Name = iGetString(IL_CHEAD_HEADER_STRING);
-	if (Name == NULL)
-		Name = InternalName;
+	HeaderName = iGetString(IL_CHEAD_HEADER_STRING);
+	Name = HeaderName != NULL ? HeaderName : InternalName;
 
 	if (FileName == NULL || Name == NULL ||
 		ilStrLen(FileName) < 1 || ilCharStrLen(Name) < 1) {
 		ilSetError(IL_INVALID_VALUE);
+		ifree(HeaderName);
 		return IL_FALSE;
 	}
 
 	if (!iCheckExtension(FileName, IL_TEXT("h"))) {
 		ilSetError(IL_INVALID_EXTENSION);
+		ifree(HeaderName);
 		return IL_FALSE;
 	}
 
 	if (ilGetBoolean(IL_FILE_MODE) == IL_FALSE) {
 		if (iFileExists(FileName)) {
 			ilSetError(IL_FILE_ALREADY_EXISTS);
+            ifree(HeaderName);
             return IL_FALSE;
 		}
 	}
 
 	if (iCurImage->Bpc > 1) {
 		TempImage = iConvertImage(iCurImage, iCurImage->Format, IL_UNSIGNED_BYTE);
-		if (TempImage == NULL)
-           return IL_FALSE;
+		if (TempImage == NULL) {
+			ifree(HeaderName);
+			return IL_FALSE;
+		}
 	} else {
 		TempImage = iCurImage;
 	}
@@ -65,6 +70,7 @@ ILboolean ilSaveCHeader(ILconst_string FileName, char *InternalName)
 		if (TempImage != iCurImage)
 			ilCloseImage(TempImage);
 		ilSetError(IL_COULD_NOT_OPEN_FILE);
+		ifree(HeaderName);
 		return IL_FALSE;
 	}
 	iSetOutputFile(HeadFile);
@@ -120,6 +126,7 @@ ILboolean ilSaveCHeader(ILconst_string FileName, char *InternalName)
 		ilprintf("};\n");
 	}
 	iclosew(HeadFile);
+	ifree(HeaderName);
 	return IL_TRUE;
 }
 
-- 
2.43.0


From f0bbde28d23fb0783df4da1faf54b7ed0593b086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:52 +0000
Subject: [PATCH 093/115] fix: the PCX saver refuses widths whose padded
 scanline does not fit in the header

---
 DevIL/src-IL/src/il_pcx.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DevIL/src-IL/src/il_pcx.cpp b/DevIL/src-IL/src/il_pcx.cpp
index b38be59..db76eff 100644
--- a/DevIL/src-IL/src/il_pcx.cpp
+++ b/DevIL/src-IL/src/il_pcx.cpp
@@ -552,7 +552,7 @@ ILboolean iSavePcxInternal()
 		return IL_FALSE;
 	}
 
-	if (iCurImage->Width > 0xFFFF || iCurImage->Height > 0xFFFF) {  // Does not fit in the header.
+	if (iCurImage->Width > 0xFFFE || iCurImage->Height > 0xFFFF) {  // Does not fit in the header (scanlines are padded to an even length).
 		ilSetError(IL_ILLEGAL_OPERATION);
 		return IL_FALSE;
 	}
-- 
2.43.0


From 552f3ff8e811dd74d772ccf4749747fd9f2fb14c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:19 +0000
Subject: [PATCH 094/115] fix: the VTF saver writes compressed pictures to
 where the file goes

---
 DevIL/src-IL/include/il_files.h  | 13 +++++++++++++
 DevIL/src-IL/src/il_dds-save.cpp |  3 +++
 DevIL/src-IL/src/il_files.cpp    | 32 ++++++++++++++++++++++++++++++++
 3 files changed, 48 insertions(+)

diff --git a/DevIL/src-IL/include/il_files.h b/DevIL/src-IL/include/il_files.h
index f301f11..6b6b7de 100644
--- a/DevIL/src-IL/include/il_files.h
+++ b/DevIL/src-IL/include/il_files.h
@@ -60,6 +60,19 @@ __FILES_EXTERN ILuint			(ILAPIENTRY *itell)(void);
 __FILES_EXTERN void				iSetOutputFile(ILHANDLE File);
 __FILES_EXTERN void				iSetOutputLump(void *Lump, ILuint Size);
 __FILES_EXTERN void				iSetOutputFake(void);
+typedef struct iOutput {  // Where the output goes
+	ILint		(ILAPIENTRY *PutcFunc)(ILubyte Char);
+	ILint		(ILAPIENTRY *SeekFunc)(ILint Offset, ILuint Mode);
+	ILuint		(ILAPIENTRY *TellFunc)(void);
+	ILint		(ILAPIENTRY *WriteFunc)(const void *Buffer, ILuint Size, ILuint Number);
+	ILHANDLE	File;
+	ILuint		FileStart;
+	void		*Lump;
+	ILuint		LumpPos, LumpSize;
+	ILboolean	Failed;
+} iOutput;
+__FILES_EXTERN void				iGetOutput(iOutput *Output);
+__FILES_EXTERN void				iPutOutput(const iOutput *Output);
 __FILES_EXTERN void				iWriteStart(void);
 __FILES_EXTERN ILboolean		iWriteOk(void);
 __FILES_EXTERN void				(ILAPIENTRY *iclosew)(ILHANDLE);
diff --git a/DevIL/src-IL/src/il_dds-save.cpp b/DevIL/src-IL/src/il_dds-save.cpp
index 8272dfc..f64a5d9 100644
--- a/DevIL/src-IL/src/il_dds-save.cpp
+++ b/DevIL/src-IL/src/il_dds-save.cpp
@@ -325,6 +325,7 @@ ILuint ILAPIENTRY ilGetDXTCData(void *Buffer, ILuint BufferSize, ILenum DXTCForm
 	ILubyte	*CurData = NULL;
 	ILuint	retVal;
 	ILint	BlockNum;
+	iOutput	Output;
 
 	if (iCurImage == NULL) {
 		ilSetError(IL_ILLEGAL_OPERATION);
@@ -369,8 +370,10 @@ ILuint ILAPIENTRY ilGetDXTCData(void *Buffer, ILuint BufferSize, ILenum DXTCForm
 	}
 
 	//@TODO: Is this the best way to do this?
+	iGetOutput(&Output);  // The caller may be in the middle of writing a file.
 	iSetOutputLump(Buffer, BufferSize);
 	retVal = Compress(iCurImage, DXTCFormat);
+	iPutOutput(&Output);
 
 	if (iCurImage->Origin != IL_ORIGIN_UPPER_LEFT) {
 		ifree(iCurImage->Data);
diff --git a/DevIL/src-IL/src/il_files.cpp b/DevIL/src-IL/src/il_files.cpp
index 538c3c0..3d8489e 100644
--- a/DevIL/src-IL/src/il_files.cpp
+++ b/DevIL/src-IL/src/il_files.cpp
@@ -388,6 +388,38 @@ void iSetOutputLump(void *Lump, ILuint Size)
 }
 
 
+// Remembers where the output goes, so that something can be written elsewhere in between.
+void iGetOutput(iOutput *Output)
+{
+	Output->PutcFunc = iputc;
+	Output->SeekFunc = iseekw;
+	Output->TellFunc = itellw;
+	Output->WriteFunc = iwrite;
+	Output->File = FileWrite;
+	Output->FileStart = WriteFileStart;
+	Output->Lump = WriteLump;
+	Output->LumpPos = WriteLumpPos;
+	Output->LumpSize = WriteLumpSize;
+	Output->Failed = WriteFailed;
+}
+
+
+// Lets the output go where it went when iGetOutput was called.
+void iPutOutput(const iOutput *Output)
+{
+	iputc = Output->PutcFunc;
+	iseekw = Output->SeekFunc;
+	itellw = Output->TellFunc;
+	iwrite = Output->WriteFunc;
+	FileWrite = Output->File;
+	WriteFileStart = Output->FileStart;
+	WriteLump = Output->Lump;
+	WriteLumpPos = Output->LumpPos;
+	WriteLumpSize = Output->LumpSize;
+	WriteFailed = Output->Failed;
+}
+
+
 // Forgets about what happened while something else was saved.
 void iWriteStart(void)
 {
-- 
2.43.0


From 9146bf775a322e90a1d1054a96dfdeef34693e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:19 +0000
Subject: [PATCH 095/115] fix: the VTF saver writes the first slice of
 compressed pictures only, as its header says

---
 DevIL/src-IL/src/il_vtf.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DevIL/src-IL/src/il_vtf.cpp b/DevIL/src-IL/src/il_vtf.cpp
index c27a211..6c1e7e1 100644
--- a/DevIL/src-IL/src/il_vtf.cpp
+++ b/DevIL/src-IL/src/il_vtf.cpp
@@ -989,8 +989,8 @@ ILboolean iSaveVtfInternal()
 				ifree(TempData);
 			return IL_FALSE;
 		}
-		// Finally write the data.
-		if (iwrite(CompData, CompSize, 1) != 1) {
+		// Finally write the data (of the first slice only, as the header says).
+		if (iwrite(CompData, CompSize / TempImage->Depth, 1) != 1) {
 			ifree(CompData);
 			if (TempData != TempImage->Data)
 				ifree(TempData);
-- 
2.43.0


From 55e9e0f35e344955dd50527ecf21233f1c61ce83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:28 +0000
Subject: [PATCH 096/115] fix: the JPEG saver frees libjpeg's memory when it
 fails

---
 DevIL/src-IL/src/il_jpeg.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/DevIL/src-IL/src/il_jpeg.cpp b/DevIL/src-IL/src/il_jpeg.cpp
index b951ff0..995475d 100644
--- a/DevIL/src-IL/src/il_jpeg.cpp
+++ b/DevIL/src-IL/src/il_jpeg.cpp
@@ -520,10 +520,12 @@ ILboolean iSaveJpegInternal()
 	}
 
 
+	memset(&JpegInfo, 0, sizeof(JpegInfo));
 	JpegInfo.err = jpeg_std_error(&Error);
 	Error.error_exit = iJpegErrorExit;  // The default one ends the program.
 	Error.output_message = OutputMsg;
 	if (setjmp(JpegJumpBuffer) != 0) {
+		jpeg_destroy_compress(&JpegInfo);
 		if (TempImage->Origin == IL_ORIGIN_LOWER_LEFT)
 			ifree(TempData);
 		if (TempImage != iCurImage)
-- 
2.43.0


From af72b616c7eca6232f833da4c836b26417ef0eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:13 +0000
Subject: [PATCH 097/115] fix: IWI and VTF loaders count whole DXT blocks

---
 DevIL/src-IL/src/il_iwi.cpp | 6 +++---
 DevIL/src-IL/src/il_vtf.cpp | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/DevIL/src-IL/src/il_iwi.cpp b/DevIL/src-IL/src/il_iwi.cpp
index 5309b11..aa84315 100644
--- a/DevIL/src-IL/src/il_iwi.cpp
+++ b/DevIL/src-IL/src/il_iwi.cpp
@@ -329,7 +329,7 @@ ILboolean IwiReadImage(ILimage *BaseImage, IWIHEAD *Header, ILuint NumMips)
 
 			case IWI_DXT1:
 				// DXT1 data has at least 8 bytes, even for one pixel.
-				SizeOfData = IL_MAX(Image->Width * Image->Height / 2, 8);
+				SizeOfData = ((Image->Width + 3) / 4) * ((Image->Height + 3) / 4) * 8;
 				CompData = (ILubyte*)ialloc(SizeOfData);  // Gives a 6:1 compression ratio (or 8:1 for DXT1 with alpha)
 				if (CompData == NULL)
 					return IL_FALSE;
@@ -356,7 +356,7 @@ ILboolean IwiReadImage(ILimage *BaseImage, IWIHEAD *Header, ILuint NumMips)
 
 			case IWI_DXT3:
 				// DXT3 data has at least 16 bytes, even for one pixel.
-				SizeOfData = IL_MAX(Image->Width * Image->Height, 16);
+				SizeOfData = ((Image->Width + 3) / 4) * ((Image->Height + 3) / 4) * 16;
 				CompData = (ILubyte*)ialloc(SizeOfData);  // Gives a 4:1 compression ratio
 				if (CompData == NULL)
 					return IL_FALSE;
@@ -374,7 +374,7 @@ ILboolean IwiReadImage(ILimage *BaseImage, IWIHEAD *Header, ILuint NumMips)
 
 			case IWI_DXT5:
 				// DXT5 data has at least 16 bytes, even for one pixel.
-				SizeOfData = IL_MAX(Image->Width * Image->Height, 16);
+				SizeOfData = ((Image->Width + 3) / 4) * ((Image->Height + 3) / 4) * 16;
 				CompData = (ILubyte*)ialloc(SizeOfData);  // Gives a 4:1 compression ratio
 				if (CompData == NULL)
 					return IL_FALSE;
diff --git a/DevIL/src-IL/src/il_vtf.cpp b/DevIL/src-IL/src/il_vtf.cpp
index 6c1e7e1..79e823e 100644
--- a/DevIL/src-IL/src/il_vtf.cpp
+++ b/DevIL/src-IL/src/il_vtf.cpp
@@ -259,7 +259,7 @@ ILboolean iLoadVtfInternal(void)
 
 	// Skip the low resolution image.  This is just a thumbnail.
 	//  The block size is 8, and the compression ratio is 6:1.
-	SizeOfData = IL_MAX(Head.LowResImageWidth * Head.LowResImageHeight / 2, 8);
+	SizeOfData = ((Head.LowResImageWidth + 3) / 4) * ((Head.LowResImageHeight + 3) / 4) * 8;
 	if (Head.LowResImageWidth == 0 && Head.LowResImageHeight == 0)
 		SizeOfData = 0;  // No low resolution image present.
 	iseek(SizeOfData, IL_SEEK_CUR);
-- 
2.43.0


From db96ec5eeb0891154e0da51c2732e0a054b3c349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:13 +0000
Subject: [PATCH 098/115] fix: KTX files are recognised

---
 DevIL/src-IL/src/il_ktx.cpp | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/DevIL/src-IL/src/il_ktx.cpp b/DevIL/src-IL/src/il_ktx.cpp
index 51db2da..83677c1 100644
--- a/DevIL/src-IL/src/il_ktx.cpp
+++ b/DevIL/src-IL/src/il_ktx.cpp
@@ -83,6 +83,11 @@ typedef struct KTX_HEAD
 
 
 
+static const ILubyte KtxIdentifier[12] = {
+	0xAB, 'K', 'T', 'X', ' ', '1', '1', 0xBB, '\r', '\n', 0x1A, '\n'
+};
+
+
 ILboolean ilIsValidKtx(ILconst_string FileName)
 {
 	ILHANDLE	KtxFile;
@@ -129,13 +134,13 @@ ILboolean ilIsValidKtxL(const void *Lump, ILuint Size)
 
 ILboolean iIsValidKtx()
 {
-	ILubyte 	Signature[8];
+	ILubyte 	Signature[12];
 	ILint		Read;
 
-	/*Read = iread(Signature, 1, 8);
-	iseek(-Read, IL_SEEK_CUR);*/
+	Read = iread(Signature, 1, 12);
+	iseek(-Read, IL_SEEK_CUR);
 
-	return IL_FALSE;
+	return Read == 12 && !memcmp(Signature, KtxIdentifier, 12);
 }
 
 
@@ -190,10 +195,6 @@ ILboolean iLoadKtxInternal()
 	ILenum		Format, Type, Origin;
 	ILubyte		Bpp, Bpc;
 	ILboolean	Compressed;
-	char		FileIdentifier[12] = {
-		//0xAB, 0x4B, 0x54, 0x58, 0x20, 0x31, 0x31, 0xBB, 0x0D, 0x0A, 0x1A, 0x0A
-		'�', 'K', 'T', 'X', ' ', '1', '1', '�', '\r', '\n', '\x1A', '\n'
-	};
 
 	if (iCurImage == NULL) {
 		ilSetError(IL_ILLEGAL_OPERATION);
@@ -220,7 +221,7 @@ ILboolean iLoadKtxInternal()
 	Header.numberOfMipmapLevels = GetLittleUInt();
 	Header.bytesOfKeyValueData = GetLittleUInt();
 
-	if (memcmp(Header.identifier, FileIdentifier, 12) || Header.endianness != 0x04030201) {
+	if (memcmp(Header.identifier, KtxIdentifier, 12) || Header.endianness != 0x04030201) {
 		ilSetError(IL_ILLEGAL_FILE_VALUE);
 		return IL_FALSE;
 	}
-- 
2.43.0


From 49bf296eb1bdac2fe053f4ffc800a12d7c09d1d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:13 +0000
Subject: [PATCH 099/115] fix: ETC1 blocks at the edges of KTX images are cut
 to the image

---
 DevIL/src-IL/src/il_ktx.cpp | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/DevIL/src-IL/src/il_ktx.cpp b/DevIL/src-IL/src/il_ktx.cpp
index 83677c1..fbd9e23 100644
--- a/DevIL/src-IL/src/il_ktx.cpp
+++ b/DevIL/src-IL/src/il_ktx.cpp
@@ -334,18 +334,22 @@ ILboolean iLoadKtxInternal()
 		switch (Header.glInternalFormat)
 		{
 			case I_GL_ETC1_RGB8_OES:
-				ILubyte *FullBuffer = (ILubyte*)ialloc(Header.pixelWidth * Header.pixelHeight / 2);
+				ILuint BlocksSize = ((iCurImage->Width + 3) / 4) * ((iCurImage->Height + 3) / 4) * 8;
+				ILubyte *FullBuffer;
 				ILuint UnpackBuff[16*4];
 				ILuint *Data = (ILuint*)iCurImage->Data;  // Easier copies
 
-				if (FullBuffer == NULL)
-					return IL_FALSE;
-				if (imageSize != Header.pixelWidth * Header.pixelHeight / 2) {
+				if (imageSize != BlocksSize) {
 					ilSetError(IL_ILLEGAL_FILE_VALUE);
 					return IL_FALSE;
 				}
-				if (iread(FullBuffer, 1, imageSize) != imageSize)
+				FullBuffer = (ILubyte*)ialloc(BlocksSize);
+				if (FullBuffer == NULL)
 					return IL_FALSE;
+				if (iread(FullBuffer, 1, imageSize) != imageSize) {
+					ifree(FullBuffer);
+					return IL_FALSE;
+				}
 
 				ILuint BlockPos = 0;
 				for (ILuint y = 0; y < iCurImage->Height; y+=4)
@@ -354,12 +358,11 @@ ILboolean iLoadKtxInternal()
 					{
 						ILuint ImagePos = y * iCurImage->Width + x;
 						rg_etc1::unpack_etc1_block(&FullBuffer[BlockPos], (ILuint*)UnpackBuff, false);
-						ILuint c = 0;
-						for (ILuint y1 = 0; y1 < 4; y1++)
+						for (ILuint y1 = 0; y1 < 4 && y + y1 < iCurImage->Height; y1++)
 						{
-							for (ILuint x1 = 0; x1 < 4; x1++)
+							for (ILuint x1 = 0; x1 < 4 && x + x1 < iCurImage->Width; x1++)
 							{
-								Data[ImagePos + y1*iCurImage->Width + x1] = UnpackBuff[c++];
+								Data[ImagePos + y1*iCurImage->Width + x1] = UnpackBuff[y1*4 + x1];
 							}
 						}
 						BlockPos += 8;
-- 
2.43.0


From 456303241699a3c549acf67e2885ff161df38144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:13 +0000
Subject: [PATCH 100/115] fix: KTX key and value pairs are walked as they are
 stored, within their size

---
 DevIL/src-IL/src/il_ktx.cpp | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/DevIL/src-IL/src/il_ktx.cpp b/DevIL/src-IL/src/il_ktx.cpp
index fbd9e23..224f88c 100644
--- a/DevIL/src-IL/src/il_ktx.cpp
+++ b/DevIL/src-IL/src/il_ktx.cpp
@@ -396,19 +396,24 @@ ILboolean iKtxKeyValueData(ILuint bytesOfKeyValueData, ILenum &Origin)
 	if (KeyValueData == NULL)
 		return IL_FALSE;
 
-	if (iread(KeyValueData, 1, bytesOfKeyValueData) != bytesOfKeyValueData)
+	if (iread(KeyValueData, 1, bytesOfKeyValueData) != bytesOfKeyValueData) {
+		ifree(KeyValueData);
 		return IL_FALSE;
+	}
 
 	// Just a very rudimentary check on the origin values
-	while (Pos < bytesOfKeyValueData)
+	while (bytesOfKeyValueData - Pos >= 4)
 	{
-		Length = *((ILuint*)&KeyValueData[Pos]);
+		Length = KeyValueData[Pos] | KeyValueData[Pos+1] << 8 | KeyValueData[Pos+2] << 16 | (ILuint)KeyValueData[Pos+3] << 24;
+		Pos += 4;
+		if (Length > bytesOfKeyValueData - Pos)
+			break;
 		if (Length >= 22)  // Size needed for the KTXorientation key
 		{
-			if (!strncmp((const char*)&KeyValueData[Pos+4], "KTXorientation", 14))
+			if (!strncmp((const char*)&KeyValueData[Pos], "KTXorientation", 14))
 			{
 				// Found the orientation key we need
-				ILubyte TopDownOrient = KeyValueData[Pos+25];
+				ILubyte TopDownOrient = KeyValueData[Pos+21];
 				if (TopDownOrient == 'd')
 					Origin = IL_ORIGIN_UPPER_LEFT;
 				else if (TopDownOrient == 'u')
@@ -416,9 +421,9 @@ ILboolean iKtxKeyValueData(ILuint bytesOfKeyValueData, ILenum &Origin)
 			}
 		}
 
+		// Each of the pairs is padded to four bytes.
 		Pos += Length;
-		if (Pos >= bytesOfKeyValueData)
-			break;
+		Pos = bytesOfKeyValueData - Pos < 3 ? bytesOfKeyValueData : (Pos + 3) & ~3u;
 	}
 
 	ifree(KeyValueData);
-- 
2.43.0


From cfb7a7d93a78c0cb32faa55cb800951cae32c9e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:13 +0000
Subject: [PATCH 101/115] fix: KTX mipmaps of odd sizes, files with no mipmaps,
 types whose size is not what the header says

---
 DevIL/src-IL/src/il_ktx.cpp | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/DevIL/src-IL/src/il_ktx.cpp b/DevIL/src-IL/src/il_ktx.cpp
index 224f88c..6b3578d 100644
--- a/DevIL/src-IL/src/il_ktx.cpp
+++ b/DevIL/src-IL/src/il_ktx.cpp
@@ -312,6 +312,11 @@ ILboolean iLoadKtxInternal()
 				return IL_FALSE;
 		}
 
+		if (Header.glTypeSize != Bpc) {
+			ilSetError(IL_ILLEGAL_FILE_VALUE);
+			return IL_FALSE;
+		}
+
 		if (!ilTexImage(Header.pixelWidth, Header.pixelHeight, 1, Bpp, Format, Type, NULL))
 			return IL_FALSE;
 		if (!iKtxReadMipmaps(Compressed, Header.numberOfMipmapLevels, Origin))
@@ -438,6 +443,13 @@ ILboolean iKtxReadMipmaps(ILboolean Compressed, ILuint NumMips, ILenum Origin)
 	ILuint Width = iCurImage->Width, Height = iCurImage->Height;
 	ILuint imageSize, Padding, Pos;
 
+	if (NumMips == 0)  // Only the image itself is present.
+		NumMips = 1;
+	if (NumMips > 32) {
+		ilSetError(IL_ILLEGAL_FILE_VALUE);
+		return IL_FALSE;
+	}
+
 	for (ILuint Mip = 0; Mip < NumMips; Mip++)
 	{
 		imageSize = GetLittleUInt();
@@ -469,8 +481,8 @@ ILboolean iKtxReadMipmaps(ILboolean Compressed, ILuint NumMips, ILenum Origin)
 		}
 
 		Image->Origin = Origin;
-		Width = Width / 2;
-		Height = Height / 2;
+		Width = IL_MAX(Width / 2, 1);
+		Height = IL_MAX(Height / 2, 1);
 
 		if (Mip < NumMips - 1)
 		{
@@ -486,15 +498,8 @@ ILboolean iKtxReadMipmaps(ILboolean Compressed, ILuint NumMips, ILenum Origin)
 	return IL_TRUE;
 
 mip_fail:
-	Image = iCurImage;
-	ILimage *StartImage = Image->Mipmaps, *TempImage;
-	while (StartImage) {
-		TempImage = StartImage;
-		StartImage = StartImage->Mipmaps;
-		ifree(TempImage);
-	}
-
-	Image->Mipmaps = NULL;
+	ilCloseImage(iCurImage->Mipmaps);
+	iCurImage->Mipmaps = NULL;
 	return IL_FALSE;
 }
 
-- 
2.43.0


From e354a4ce340c536418740677aec9529d1ac2b182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:17 +0000
Subject: [PATCH 102/115] fix: BLP: recognise BLP1 files, check the size of a
 mipmap, free everything on failure

---
 DevIL/src-IL/src/il_blp.cpp | 39 +++++++++++++++++++++++++++++--------
 1 file changed, 31 insertions(+), 8 deletions(-)

diff --git a/DevIL/src-IL/src/il_blp.cpp b/DevIL/src-IL/src/il_blp.cpp
index a22ecbe..8f3795a 100755
--- a/DevIL/src-IL/src/il_blp.cpp
+++ b/DevIL/src-IL/src/il_blp.cpp
@@ -143,11 +143,21 @@ ILboolean iIsValidBlp2(void)
 {
 	BLP2HEAD Header;
 
+	BLP1HEAD Header1;
+	ILuint Pos = itell();
+
 	if (!iGetBlp2Head(&Header))
 		return IL_FALSE;
-	iseek(-148, IL_SEEK_CUR);
-	
-	return iCheckBlp2(&Header);
+	iseek(Pos, IL_SEEK_SET);
+	if (iCheckBlp2(&Header))
+		return IL_TRUE;
+
+	// It can still be a BLP1.
+	if (!iGetBlp1Head(&Header1))
+		return IL_FALSE;
+	iseek(Pos, IL_SEEK_SET);
+
+	return iCheckBlp1(&Header1);
 }
 
 
@@ -257,7 +267,7 @@ ILboolean iLoadBlpInternal(void)
 						break;
 					if (Image->Width == 1 && Image->Height == 1)  // Already at the smallest mipmap (1x1), so we are done.
 						break;
-					if (Header.MipOffsets[Mip] == 0 || Header.MipLengths == 0)  // No more mipmaps in the file.
+					if (Header.MipOffsets[Mip] == 0 || Header.MipLengths[Mip] == 0)  // No more mipmaps in the file.
 						break;
 				}
 
@@ -284,7 +294,8 @@ ILboolean iLoadBlpInternal(void)
 								return IL_FALSE;
 
 							// Copy the palette from the first image before we change our Image pointer.
-							iCopyPalette(&Image->Mipmaps->Pal, &Image->Pal);
+							if (!iCopyPalette(&Image->Mipmaps->Pal, &Image->Pal))
+								return IL_FALSE;
 							// Move to the next mipmap in the linked list.
 							Image = Image->Mipmaps;
 						}
@@ -329,8 +340,11 @@ ILboolean iLoadBlpInternal(void)
 						}
 						else {
 							Image->Mipmaps = ilNewImageFull(Image->Width >> 1, Image->Height >> 1, 1, 4, IL_BGRA, IL_UNSIGNED_BYTE, NULL);
-							if (Image->Mipmaps == NULL)
+							if (Image->Mipmaps == NULL) {
+								ifree(DataAndAlpha);
+								ifree(Palette);
 								return IL_FALSE;
+							}
 
 							// Move to the next mipmap in the linked list.
 							Image = Image->Mipmaps;
@@ -344,6 +358,8 @@ ILboolean iLoadBlpInternal(void)
 							AlphaSize = 1;  // Should never be 0.
 						// These two should be the same (tells us how much data is in the file for this mipmap level).
 						if (Header.MipLengths[Mip] != Image->SizeOfData / 4 + AlphaSize) {
+							ifree(DataAndAlpha);
+							ifree(Palette);
 							ilSetError(IL_INVALID_FILE_HEADER);
 							return IL_FALSE;
 						}
@@ -598,12 +614,18 @@ ILboolean iLoadBlp1()
 					return IL_FALSE;
 				}
 				memcpy(JpegData, JpegHeader, JpegHeaderSize);
-				if (iread(JpegData + JpegHeaderSize, Header.MipLengths[i], 1) != 1)
+				if (iread(JpegData + JpegHeaderSize, Header.MipLengths[i], 1) != 1) {
+					ifree(JpegData);
+					ifree(JpegHeader);
 					return IL_FALSE;
+				}
 
 				// Just send the data straight to the Jpeg loader.
-				if (!ilLoadJpegL(JpegData, JpegHeaderSize + Header.MipLengths[i]))
+				if (!ilLoadJpegL(JpegData, JpegHeaderSize + Header.MipLengths[i])) {
+					ifree(JpegData);
+					ifree(JpegHeader);
 					return IL_FALSE;
+				}
 
 				// The image data is in BGR(A) order, even though it is Jpeg-compressed.
 				if (Image->Format == IL_RGBA)
@@ -688,6 +710,7 @@ ILboolean iLoadBlp1()
 
 					// Read in the data and the palette.
 					if (iread(Palette, 1, 1024) != 1024) {
+						ifree(DataAndAlpha);
 						ifree(Palette);
 						return IL_FALSE;
 					}
-- 
2.43.0


From 3fa6f291f457d9f4b5cae0668858f60e19eb1802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:17 +0000
Subject: [PATCH 103/115] fix: CUT: give the picture its grey palette

---
 DevIL/src-IL/src/il_cut.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/DevIL/src-IL/src/il_cut.cpp b/DevIL/src-IL/src/il_cut.cpp
index fed42a5..f460f23 100644
--- a/DevIL/src-IL/src/il_cut.cpp
+++ b/DevIL/src-IL/src/il_cut.cpp
@@ -137,9 +137,14 @@ ILboolean iLoadCutInternal()
 
 	iCurImage->Origin = IL_ORIGIN_UPPER_LEFT;  // Not sure
 
-	/*iCurImage->Pal.Palette = SharedPal.Palette;
-	iCurImage->Pal.PalSize = SharedPal.PalSize;
-	iCurImage->Pal.PalType = SharedPal.PalType;*/
+	// The colours are in another file, so use shades of grey until they are loaded with ilLoadPal.
+	iCurImage->Pal.Palette = (ILubyte*)ialloc(256 * 3);
+	if (iCurImage->Pal.Palette == NULL)
+		return IL_FALSE;
+	iCurImage->Pal.PalSize = 256 * 3;
+	iCurImage->Pal.PalType = IL_PAL_RGB24;
+	for (i = 0; i < 256 * 3; i++)
+		iCurImage->Pal.Palette[i] = (ILubyte)(i / 3);
 
 	return ilFixImage();
 }
-- 
2.43.0


From cfbfc71860b9bc33ac99691ebcca6b85beb60940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:17 +0000
Subject: [PATCH 104/115] fix: DPX: read 16 and 32 bit elements as such, take
 the filler of 10 bit data from the right end

---
 DevIL/src-IL/src/il_dpx.cpp | 48 +++++++++++++++++++++++++++----------
 1 file changed, 35 insertions(+), 13 deletions(-)

diff --git a/DevIL/src-IL/src/il_dpx.cpp b/DevIL/src-IL/src/il_dpx.cpp
index 2baf904..53959b3 100644
--- a/DevIL/src-IL/src/il_dpx.cpp
+++ b/DevIL/src-IL/src/il_dpx.cpp
@@ -211,14 +211,33 @@ ILboolean iLoadDpxInternal(void)
 	switch (ImageInfo.ImageElement[CurElem].BitSize)
 	{
 		case 8:
-		case 16:
-		case 32:
 			if (!ilTexImage(ImageInfo.Width, ImageInfo.Height, 1, NumChans, Format, IL_UNSIGNED_BYTE, NULL))
 				return IL_FALSE;
 			iCurImage->Origin = IL_ORIGIN_UPPER_LEFT;
 			if (iread(iCurImage->Data, iCurImage->SizeOfData, 1) != 1)
 				return IL_FALSE;
 			goto finish;
+
+		case 16:
+			if (!ilTexImage(ImageInfo.Width, ImageInfo.Height, 1, NumChans, Format, IL_UNSIGNED_SHORT, NULL))
+				return IL_FALSE;
+			iCurImage->Origin = IL_ORIGIN_UPPER_LEFT;
+			ShortData = (ILushort*)iCurImage->Data;
+			NumElements = iCurImage->SizeOfData / 2;
+			if (iread(ShortData, 2, NumElements) != NumElements)
+				return IL_FALSE;
+			for (i = 0; i < NumElements; i++)
+				BigUShort(&ShortData[i]);
+			goto finish;
+
+		case 32:
+			if (!ilTexImage(ImageInfo.Width, ImageInfo.Height, 1, NumChans, Format, IL_FLOAT, NULL))
+				return IL_FALSE;
+			iCurImage->Origin = IL_ORIGIN_UPPER_LEFT;
+			NumElements = iCurImage->SizeOfData / 4;
+			for (i = 0; i < NumElements; i++)
+				((ILfloat*)iCurImage->Data)[i] = GetBigFloat();
+			goto finish;
 	}
 
 	// The rest of these do not end on word boundaries.
@@ -242,9 +261,10 @@ ILboolean iLoadDpxInternal(void)
 						NumElements = iCurImage->SizeOfData / 2;
 
 						for (i = 0; i < NumElements;) {
-							iread(Data, 1, 2);
-							Val = ((Data[0] << 2) + ((Data[1] & 0xC0) >> 6)) << 6;  // Use the first 10 bits of the word-aligned data.
-							ShortData[i++] = Val | ((Val & 0x3F0) >> 4);  // Fill in the lower 6 bits with a copy of the higher bits.
+							if (iread(Data, 1, 2) != 2)
+								return IL_FALSE;
+							Val = (Data[0] << 2) + ((Data[1] & 0xC0) >> 6);  // Use the first 10 bits of the word-aligned data.
+							ShortData[i++] = (Val << 6) | ((Val & 0x3F0) >> 4);  // Fill in the lower 6 bits with a copy of the higher bits.
 						}
 						break;
 
@@ -256,13 +276,14 @@ ILboolean iLoadDpxInternal(void)
 						NumElements = iCurImage->SizeOfData / 2;
 
 						for (i = 0; i < NumElements;) {
-							iread(Data, 1, 4);
-							Val = ((Data[0] << 2) + ((Data[1] & 0xC0) >> 6)) << 6;  // Use the first 10 bits of the word-aligned data.
-							ShortData[i++] = Val | ((Val & 0x3F0) >> 4);  // Fill in the lower 6 bits with a copy of the higher bits.
-							Val = (((Data[1] & 0x3F) << 4) + ((Data[2] & 0xF0) >> 4)) << 6;  // Use the next 10 bits.
-							ShortData[i++] = Val | ((Val & 0x3F0) >> 4);  // Same fill
-							Val = (((Data[2] & 0x0F) << 6) + ((Data[3] & 0xFC) >> 2)) << 6;  // And finally use the last 10 bits (ignores the last 2 bits).
-							ShortData[i++] = Val | ((Val & 0x3F0) >> 4);  // Same fill
+							if (iread(Data, 1, 4) != 4)
+								return IL_FALSE;
+							Val = (Data[0] << 2) + ((Data[1] & 0xC0) >> 6);  // Use the first 10 bits of the word-aligned data.
+							ShortData[i++] = (Val << 6) | ((Val & 0x3F0) >> 4);  // Fill in the lower 6 bits with a copy of the higher bits.
+							Val = ((Data[1] & 0x3F) << 4) + ((Data[2] & 0xF0) >> 4);  // Use the next 10 bits.
+							ShortData[i++] = (Val << 6) | ((Val & 0x3F0) >> 4);  // Same fill
+							Val = ((Data[2] & 0x0F) << 6) + ((Data[3] & 0xFC) >> 2);  // And finally use the last 10 bits (ignores the last 2 bits).
+							ShortData[i++] = (Val << 6) | ((Val & 0x3F0) >> 4);  // Same fill
 						}
 						break;
 
@@ -274,7 +295,8 @@ ILboolean iLoadDpxInternal(void)
 						NumElements = iCurImage->SizeOfData / 2;
 
 						for (i = 0; i < NumElements;) {
-							iread(Data, 1, 8);
+							if (iread(Data, 1, 8) != 8)
+								return IL_FALSE;
 							Val = (Data[0] << 2) + ((Data[1] & 0xC0) >> 6);  // Use the first 10 bits of the word-aligned data.
 							ShortData[i++] = (Val << 6) | ((Val & 0x3F0) >> 4);  // Fill in the lower 6 bits with a copy of the higher bits.
 							Val = ((Data[1] & 0x3F) << 4) + ((Data[2] & 0xF0) >> 4);  // Use the next 10 bits.
-- 
2.43.0


From bf013ca57de7031c16ae44e718ba3a94667130c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:17 +0000
Subject: [PATCH 105/115] fix: swap the bytes of a double properly

---
 DevIL/src-IL/src/il_endian.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DevIL/src-IL/src/il_endian.cpp b/DevIL/src-IL/src/il_endian.cpp
index 0c7ff2a..7e16bcf 100644
--- a/DevIL/src-IL/src/il_endian.cpp
+++ b/DevIL/src-IL/src/il_endian.cpp
@@ -74,7 +74,7 @@ void iSwapDouble(ILdouble *d) {
 		: "r"  (t[0]), "r"  (t[1]));
 	#else
 	ILubyte t,*b = (ILubyte*)d;
-	#define dswap(x,y) t=b[x];b[x]=b[y];b[y]=b[x];
+	#define dswap(x,y) t=b[x];b[x]=b[y];b[y]=t;
 	dswap(0,7);
 	dswap(1,6);
 	dswap(2,5);
-- 
2.43.0


From 321ead5756e2aac0352a59ef2357198f49aa0243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:17 +0000
Subject: [PATCH 106/115] fix: FITS: do not divide by a maximum of 0

---
 DevIL/src-IL/src/il_fits.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/DevIL/src-IL/src/il_fits.cpp b/DevIL/src-IL/src/il_fits.cpp
index 406de2d..bf0485b 100644
--- a/DevIL/src-IL/src/il_fits.cpp
+++ b/DevIL/src-IL/src/il_fits.cpp
@@ -314,6 +314,9 @@ ILboolean iLoadFitsInternal(void)
 					MaxF = ((ILfloat*)iCurImage->Data)[i];
 			}
 
+			if (MaxF <= 0.0f)  // Nothing is above 0, so do not divide by 0.
+				MaxF = 1.0f;
+
 			// Renormalize to [0..1].
 			for (i = 0; i < NumPix; i++) {
 				// Change all negative numbers to 0.
@@ -330,6 +333,9 @@ ILboolean iLoadFitsInternal(void)
 					MaxD = ((ILdouble*)iCurImage->Data)[i];
 			}
 
+			if (MaxD <= 0.0)  // Nothing is above 0, so do not divide by 0.
+				MaxD = 1.0;
+
 			// Renormalize to [0..1].
 			for (i = 0; i < NumPix; i++) {
 				// Change all negative numbers to 0.
-- 
2.43.0


From 77cea688f348ac1ecbde25809edb981701c5d69e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:17 +0000
Subject: [PATCH 107/115] fix: ICNS: a picture without a mask is opaque

---
 DevIL/src-IL/src/il_icns.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/DevIL/src-IL/src/il_icns.cpp b/DevIL/src-IL/src/il_icns.cpp
index e0f45d4..8c9493d 100644
--- a/DevIL/src-IL/src/il_icns.cpp
+++ b/DevIL/src-IL/src/il_icns.cpp
@@ -300,6 +300,8 @@ ILboolean iIcnsReadData(ILboolean *BaseCreated, ILboolean IsAlpha, ILint Width,
 		}
 
 		TempImage = *Image;
+		// The mask (or the colours) may be missing.
+		memset(TempImage->Data, 0xFF, TempImage->SizeOfData);
 	}
 
 	if (IsAlpha)  // Alpha is never compressed.
-- 
2.43.0


From 4665de1b08cc3a8ce2e64da4b762b831d8528b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:17 +0000
Subject: [PATCH 108/115] fix: IFF: check chunk, tile and run sizes

---
 DevIL/src-IL/src/il_iff.cpp | 88 ++++++++++++++++++++++++++++---------
 1 file changed, 67 insertions(+), 21 deletions(-)

diff --git a/DevIL/src-IL/src/il_iff.cpp b/DevIL/src-IL/src/il_iff.cpp
index c7ade04..9cab11b 100755
--- a/DevIL/src-IL/src/il_iff.cpp
+++ b/DevIL/src-IL/src/il_iff.cpp
@@ -25,6 +25,7 @@ typedef struct _iff_chunk {
 #define CHUNK_STACK_SIZE (32)
 static iff_chunk chunkStack[CHUNK_STACK_SIZE];
 static int chunkDepth = -1;
+static ILboolean chunkError = IL_FALSE;  // The file ended or has a size that cannot be.
 
 iff_chunk iff_begin_read_chunk();
 void iff_end_read_chunk();
@@ -132,9 +133,14 @@ ILboolean iLoadIffInternal(void)
 
 	// -- Initialize the top of the chunk stack.
 	chunkDepth = -1;
+	chunkError = IL_FALSE;
 
 	// -- File should begin with a FOR4 chunk of type CIMG
 	chunkInfo = iff_begin_read_chunk();
+	if (chunkError) {
+		ilSetError(IL_ILLEGAL_FILE_VALUE);
+		return IL_FALSE;
+	}
 	if (chunkInfo.chunkType != IFF_TAG_CIMG) {
 		ilSetError(IL_ILLEGAL_FILE_VALUE);
 		return IL_FALSE;
@@ -152,6 +158,10 @@ ILboolean iLoadIffInternal(void)
 	while (1) {
 
 		chunkInfo = iff_begin_read_chunk();
+		if (chunkError) {
+			ilSetError(IL_ILLEGAL_FILE_VALUE);
+			return IL_FALSE;
+		}
 		
 		// -- Right now, the only info we need about the image is in TBHD
 		// -- so search this level until we find it.
@@ -200,6 +210,10 @@ ILboolean iLoadIffInternal(void)
 		ILuint tileZ;
 	
 		chunkInfo = iff_begin_read_chunk();
+		if (chunkError) {
+			ilSetError(IL_ILLEGAL_FILE_VALUE);
+			return IL_FALSE;
+		}
 
 		/*
 		 * OK, we have a FOR4 of type TBMP, (embedded FOR4)
@@ -225,13 +239,17 @@ ILboolean iLoadIffInternal(void)
 
 		// Read tiles
 		while ( (tileImage < tiles) || (tileZ < tiles)) {
-			char	 *tileData;
+			char	 *tileData = NULL;
 			ILushort x1, x2, y1, y2, tile_width, tile_height;
 			ILuint remainingDataSize;
 			ILushort	tile_area;
 			ILuint	tileCompressed;
 
 			chunkInfo = iff_begin_read_chunk();
+			if (chunkError) {
+				ilSetError(IL_ILLEGAL_FILE_VALUE);
+				return IL_FALSE;
+			}
 			if ((chunkInfo.tag != IFF_TAG_RGBA) && (chunkInfo.tag != IFF_TAG_ZBUF)) {
 				ilSetError(IL_ILLEGAL_FILE_VALUE);
 				return IL_FALSE;
@@ -239,12 +257,21 @@ ILboolean iLoadIffInternal(void)
 			x1 = GetBigUShort();	y1 = GetBigUShort();
 			x2 = GetBigUShort();	y2 = GetBigUShort();
 
+			if (chunkInfo.size < 4*sizeof(ILushort)) {
+				ilSetError(IL_ILLEGAL_FILE_VALUE);
+				return IL_FALSE;
+			}
 			remainingDataSize = chunkInfo.size - 4*sizeof(ILushort);
+			// The tile has to be inside the image.
+			if (chunkInfo.tag == IFF_TAG_RGBA && (x1 > x2 || y1 > y2 || x2 >= width || y2 >= height)) {
+				ilSetError(IL_ILLEGAL_FILE_VALUE);
+				return IL_FALSE;
+			}
 			tile_width = x2 - x1 + 1;
 			tile_height = y2 - y1 + 1;
 			tile_area = tile_width * tile_height;
 
-			if ((ILint)remainingDataSize >= (tile_width * tile_height * bpp))
+			if (remainingDataSize / bpp >= (ILuint)tile_width * tile_height)
 				tileCompressed = 0;
 			else
 				tileCompressed = 1;
@@ -307,8 +334,18 @@ iff_chunk iff_begin_read_chunk()
 	}
 
 	chunkStack[chunkDepth].start = itell();
-	chunkStack[chunkDepth].tag = GetBigInt();
-	chunkStack[chunkDepth].size = GetBigInt();
+	chunkStack[chunkDepth].tag = 0;
+	chunkStack[chunkDepth].size = 0;
+	chunkStack[chunkDepth].chunkType = 0;
+	if (iread(&chunkStack[chunkDepth].tag, 4, 1) != 1 || iread(&chunkStack[chunkDepth].size, 4, 1) != 1) {
+		chunkError = IL_TRUE;
+		return chunkStack[chunkDepth];
+	}
+	BigUInt(&chunkStack[chunkDepth].tag);
+	BigUInt(&chunkStack[chunkDepth].size);
+	// Going to the end of the chunk must not go back.
+	if (chunkStack[chunkDepth].size > 0x7FFFFFF0 - chunkStack[chunkDepth].start)
+		chunkError = IL_TRUE;
     
 	if (chunkStack[chunkDepth].tag == IFF_TAG_FOR4) {
 		// -- We have a form, so read the form type tag as well. 
@@ -326,17 +363,15 @@ void iff_end_read_chunk()
 	int		part;
   
 	end = chunkStack[chunkDepth].start + chunkStack[chunkDepth].size + 8;
-    
-	if (chunkStack[chunkDepth].chunkType != 0) {
-		end += 4;
-	}
-	// Add padding 
-	part = end % 4;
+
+	// Add padding (the size of a form includes its type)
+	part = chunkStack[chunkDepth].size % 4;
 	if (part != 0) {
 	    end += 4 - part;   
 	}
 
-	iseek(end, IL_SEEK_SET);
+	if (iseek(end, IL_SEEK_SET))
+		chunkError = IL_TRUE;
 
 	chunkDepth--;
 }
@@ -377,16 +412,17 @@ char *iffReadUncompressedTile(ILushort width, ILushort height, ILbyte depth)
 		return NULL;
 	}
 
+	// The channels are stored in reverse.
 	iniPixel = data;
-	for (i = 0; i < tam / depth; i++) {
-		finPixel = iniPixel + depth;
-		for (j = 0; j < (depth /2); j++) {
-			char aux;
-			aux = *iniPixel; 
-			*(finPixel--) = *iniPixel;
-			*(iniPixel++) = aux;
+	for (i = 0; i < tam / depth; i++, iniPixel += depth) {
+		finPixel = iniPixel + depth - 1;
+		for (j = 0; j < (depth / 2); j++) {
+			char aux = iniPixel[j];
+			iniPixel[j] = *finPixel;
+			*(finPixel--) = aux;
 		}
 	}
+
 	return data;
 }
 
@@ -395,7 +431,7 @@ char *iff_decompress_tile_rle(ILushort width, ILushort height, ILushort depth,
 							  char *compressedData, ILuint compressedDataSize)
 {
 
-	char	*channels[4];
+	char	*channels[4] = { NULL, NULL, NULL, NULL };
 	char	*data;
 	int		i, k, row, column;
 	ILuint	compressedStart = 0;
@@ -409,14 +445,20 @@ char *iff_decompress_tile_rle(ILushort width, ILushort height, ILushort depth,
 	for (i = depth-1; i >= 0; --i) {
 		channels[i] = iff_decompress_rle(width * height, compressedData, 
 				      compressedDataSize, &compressedStart);
-		if (channels[i] == NULL)
+		if (channels[i] == NULL) {
+			ifree(channels[0]); ifree(channels[1]);
+			ifree(channels[2]); ifree(channels[3]);
 			return NULL;
+		}
 	}
 
     // Build all the channels from the decompression into an RGBA array.
 	data = (char*)ialloc(width * height * depth * sizeof(char));
-	if (data == NULL)
+	if (data == NULL) {
+		ifree(channels[0]); ifree(channels[1]);
+		ifree(channels[2]); ifree(channels[3]);
 		return NULL;
+	}
 
 	for (row = 0; row < height; row++)
 		for (column = 0; column < width; column++)
@@ -454,6 +496,8 @@ char *iff_decompress_rle(ILuint numBytes, char *compressedData,
 		if ((byteCount + count) > numBytes) break;
 		if (nextChar & 0x80) {
 			// Duplication run
+			if (*compressedStartIndex >= compressedDataSize)
+				break;
 			nextChar = compressedData[*compressedStartIndex];
 			(*compressedStartIndex)++;
 			// assert ((byteCount + count) <= numBytes);
@@ -463,6 +507,8 @@ char *iff_decompress_rle(ILuint numBytes, char *compressedData,
 			}
 		} else {
 			// Verbatim run
+			if (count > compressedDataSize - *compressedStartIndex)
+				break;
 			for (i = 0; i < count; i++) {
 				data[byteCount] = compressedData[*compressedStartIndex];
 				(*compressedStartIndex)++;
-- 
2.43.0


From 406cf5613de613008df4e9b1d453b912b4f0ffe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:17 +0000
Subject: [PATCH 109/115] fix: IWI: the mipmap chain goes down to 1x1

---
 DevIL/src-IL/src/il_iwi.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DevIL/src-IL/src/il_iwi.cpp b/DevIL/src-IL/src/il_iwi.cpp
index aa84315..a092236 100644
--- a/DevIL/src-IL/src/il_iwi.cpp
+++ b/DevIL/src-IL/src/il_iwi.cpp
@@ -263,7 +263,7 @@ ILboolean IwiInitMipmaps(ILimage *BaseImage, ILuint *NumMips)
 	Width = BaseImage->Width;  Height = BaseImage->Height;
 	Image->Origin = IL_ORIGIN_UPPER_LEFT;
 
-	for (Mipmap = 0; Width != 1 && Height != 1; Mipmap++) {
+	for (Mipmap = 0; Width != 1 || Height != 1; Mipmap++) {
 		// 1 is the smallest dimension possible.
 		Width = (Width >> 1) == 0 ? 1 : (Width >> 1);
 		Height = (Height >> 1) == 0 ? 1 : (Height >> 1);
-- 
2.43.0


From bc3268fe785c06d0d9598f96050cef83b0f31d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:17 +0000
Subject: [PATCH 110/115] fix: PSP: check sizes of channels, runs and palettes,
 free everything on failure

---
 DevIL/src-IL/src/il_psp.cpp | 94 ++++++++++++++++++++++++++-----------
 1 file changed, 66 insertions(+), 28 deletions(-)

diff --git a/DevIL/src-IL/src/il_psp.cpp b/DevIL/src-IL/src/il_psp.cpp
index d8c6669..6e4ec3f 100644
--- a/DevIL/src-IL/src/il_psp.cpp
+++ b/DevIL/src-IL/src/il_psp.cpp
@@ -172,6 +172,7 @@ ILboolean iLoadPspInternal()
 	}
 
 	Channels = NULL;
+	NumChannels = 0;
 	Alpha = NULL;
 	Pal.Palette = NULL;
 
@@ -184,10 +185,10 @@ ILboolean iLoadPspInternal()
 
 	if (!ReadGenAttributes())
 		return IL_FALSE;
-	if (!ParseChunks())
-		return IL_FALSE;
-	if (!AssembleImage())
+	if (!ParseChunks() || !AssembleImage()) {
+		Cleanup();
 		return IL_FALSE;
+	}
 
 	Cleanup();
 	return ilFixImage();
@@ -218,6 +219,7 @@ ILboolean ReadGenAttributes()
 	ChunkLen = GetLittleUInt();
 	if (Header.MajorVersion != 3)
 		ChunkLen -= 4;
+	memset(&AttChunk, 0, sizeof(AttChunk));
 	if (iread(&AttChunk, IL_MIN(sizeof(AttChunk), ChunkLen), 1) != 1)
 		return IL_FALSE;
 
@@ -238,6 +240,12 @@ ILboolean ReadGenAttributes()
 		return IL_FALSE;
 	}
 
+	if (AttChunk.Width <= 0 || AttChunk.Height <= 0 || AttChunk.Width > 0xFFFF || AttChunk.Height > 0xFFFF ||
+		AttChunk.Width > 0x1FFFFFFF / AttChunk.Height) {
+		ilSetError(IL_INVALID_FILE_HEADER);
+		return IL_FALSE;
+	}
+
 	// @TODO: Check more things in the general attributes chunk here.
 
 	return IL_TRUE;
@@ -290,6 +298,10 @@ ILboolean ParseChunks()
 				//iseek(Block.BlockLen, IL_SEEK_CUR);
 		}
 
+		// The end of the block cannot be before its start.
+		if (Block.BlockLen > 0x7FFFFFFF)
+			return IL_TRUE;
+
 		// Skip to next block just in case we didn't read the entire block.
 		iseek(Pos + Block.BlockLen, IL_SEEK_SET);
 
@@ -306,7 +318,7 @@ ILboolean ReadLayerBlock(ILuint BlockLen)
 	BLOCKHEAD			Block;
 	LAYERINFO_CHUNK		LayerInfo;
 	LAYERBITMAP_CHUNK	Bitmap;
-	ILuint				ChunkSize, Padding, i, j;
+	ILuint				ChunkSize, Padding;
 	ILushort			NumChars;
 
 	BlockLen;
@@ -357,20 +369,18 @@ ILboolean ReadLayerBlock(ILuint BlockLen)
 	}
 
 
-	Channels = (ILubyte**)ialloc(sizeof(ILubyte*) * Bitmap.NumChannels);
+	if (Channels != NULL)  // Only the first bank of layers is used.
+		return IL_TRUE;
+	Channels = (ILubyte**)icalloc(sizeof(ILubyte*), IL_MAX(1, Bitmap.NumChannels));
 	if (Channels == NULL) {
 		return IL_FALSE;
 	}
 
-	NumChannels = Bitmap.NumChannels;
-
-	for (i = 0; i < NumChannels; i++) {
-		Channels[i] = GetChannel();
-		if (Channels[i] == NULL) {
-			for (j = 0; j < i; j++)
-				ifree(Channels[j]);
+	// The channels are freed in Cleanup.
+	for (NumChannels = 0; NumChannels < Bitmap.NumChannels; NumChannels++) {
+		Channels[NumChannels] = GetChannel();
+		if (Channels[NumChannels] == NULL)
 			return IL_FALSE;
-		}
 	}
 
 	return IL_TRUE;
@@ -443,6 +453,8 @@ ILboolean ReadAlphaBlock(ILuint BlockLen)
 	}*/
 
 
+	if (Alpha != NULL)  // Only the first alpha channel is used.
+		return IL_TRUE;
 	Alpha = GetChannel();
 	if (Alpha == NULL)
 		return IL_FALSE;
@@ -492,7 +504,7 @@ ILubyte *GetChannel()
 
 
 	CompData = (ILubyte*)ialloc(Channel.CompLen);
-	Data = (ILubyte*)ialloc(AttChunk.Width * AttChunk.Height);
+	Data = (ILubyte*)icalloc(AttChunk.Width * AttChunk.Height, 1);
 	if (CompData == NULL || Data == NULL) {
 		ifree(Data);
 		ifree(CompData);
@@ -509,6 +521,11 @@ ILubyte *GetChannel()
 	{
 		case PSP_COMP_NONE:
 			ifree(Data);
+			if (Channel.CompLen < (ILuint)(AttChunk.Width * AttChunk.Height)) {
+				ifree(CompData);
+				ilSetError(IL_ILLEGAL_FILE_VALUE);
+				return NULL;
+			}
 			return CompData;
 			break;
 
@@ -516,7 +533,8 @@ ILubyte *GetChannel()
 			if (!UncompRLE(CompData, Data, Channel.CompLen)) {
 				ifree(CompData);
 				ifree(Data);
-				return IL_FALSE;
+				ilSetError(IL_ILLEGAL_FILE_VALUE);
+				return NULL;
 			}
 			break;
 
@@ -536,7 +554,7 @@ ILubyte *GetChannel()
 ILboolean UncompRLE(ILubyte *CompData, ILubyte *Data, ILuint CompLen)
 {
 	ILubyte	Run, Colour;
-	ILint	i, /*x, y,*/ Count/*, Total = 0*/;
+	ILint	i, /*x, y,*/ Count/*, Total = 0*/, Size = AttChunk.Width * AttChunk.Height;
 
 	/*for (y = 0; y < AttChunk.Height; y++) {
 		for (x = 0, Count = 0; x < AttChunk.Width; ) {
@@ -568,16 +586,20 @@ ILboolean UncompRLE(ILubyte *CompData, ILubyte *Data, ILuint CompLen)
 			return IL_FALSE;
 	}*/
 
-	for (i = 0, Count = 0; i < (ILint)CompLen; ) {
+	for (i = 0, Count = 0; i < (ILint)CompLen && Count < Size; ) {
 		Run = *CompData++;
 		i++;
 		if (Run > 128) {
 			Run -= 128;
+			if (i >= (ILint)CompLen || Run > Size - Count)
+				return IL_FALSE;
 			Colour = *CompData++;
 			i++;
 			memset(Data, Colour, Run);
 		}
 		else {
+			if (Run > (ILint)CompLen - i || Run > Size - Count)
+				return IL_FALSE;
 			memcpy(Data, CompData, Run);
 			CompData += Run;
 			i += Run;
@@ -605,16 +627,21 @@ ILboolean ReadPalette(ILuint BlockLen)
 		PalCount = GetLittleUInt();
 	}
 
-	Pal.PalSize = PalCount * 4;
-	Pal.PalType = IL_PAL_BGRA32;
-	Pal.Palette = (ILubyte*)ialloc(Pal.PalSize);
+	if (PalCount == 0 || PalCount > 256) {
+		ilSetError(IL_ILLEGAL_FILE_VALUE);
+		return IL_FALSE;
+	}
+	ifree(Pal.Palette);
+	// There is always room for every index the data can hold.
+	Pal.PalSize = 256 * 4;
+	Pal.PalType = IL_PAL_BGR32;
+	Pal.Palette = (ILubyte*)icalloc(256, 4);
 	if (Pal.Palette == NULL)
 		return IL_FALSE;
 
-	if (iread(Pal.Palette, Pal.PalSize, 1) != 1) {
-		ifree(Pal.Palette);
+	// Freed in Cleanup, unless an image uses it.
+	if (iread(Pal.Palette, PalCount * 4, 1) != 1)
 		return IL_FALSE;
-	}
 
 	return IL_TRUE;
 }
@@ -624,10 +651,15 @@ ILboolean AssembleImage()
 {
 	ILuint Size, i, j;
 
+	if (Channels == NULL) {
+		ilSetError(IL_INVALID_FILE_HEADER);
+		return IL_FALSE;
+	}
 	Size = AttChunk.Width * AttChunk.Height;
 
 	if (NumChannels == 1) {
-		ilTexImage(AttChunk.Width, AttChunk.Height, 1, 1, IL_LUMINANCE, IL_UNSIGNED_BYTE, NULL);
+		if (!ilTexImage(AttChunk.Width, AttChunk.Height, 1, 1, IL_LUMINANCE, IL_UNSIGNED_BYTE, NULL))
+			return IL_FALSE;
 		for (i = 0; i < Size; i++) {
 			iCurImage->Data[i] = Channels[0][i];
 		}
@@ -637,11 +669,13 @@ ILboolean AssembleImage()
 			iCurImage->Pal.PalSize = Pal.PalSize;
 			iCurImage->Pal.PalType = Pal.PalType;
 			iCurImage->Pal.Palette = Pal.Palette;
+			Pal.Palette = NULL;
 		}
 	}
 	else {
-		if (Alpha) {
-			ilTexImage(AttChunk.Width, AttChunk.Height, 1, 4, IL_RGBA, IL_UNSIGNED_BYTE, NULL);
+		if (Alpha && NumChannels >= 3) {
+			if (!ilTexImage(AttChunk.Width, AttChunk.Height, 1, 4, IL_RGBA, IL_UNSIGNED_BYTE, NULL))
+				return IL_FALSE;
 			for (i = 0, j = 0; i < Size; i++, j += 4) {
 				iCurImage->Data[j  ] = Channels[0][i];
 				iCurImage->Data[j+1] = Channels[1][i];
@@ -652,7 +686,8 @@ ILboolean AssembleImage()
 
 		else if (NumChannels == 4) {
 
-			ilTexImage(AttChunk.Width, AttChunk.Height, 1, 4, IL_RGBA, IL_UNSIGNED_BYTE, NULL);
+			if (!ilTexImage(AttChunk.Width, AttChunk.Height, 1, 4, IL_RGBA, IL_UNSIGNED_BYTE, NULL))
+				return IL_FALSE;
 
 			for (i = 0, j = 0; i < Size; i++, j += 4) {
 
@@ -668,7 +703,8 @@ ILboolean AssembleImage()
 
 		}
 		else if (NumChannels == 3) {
-			ilTexImage(AttChunk.Width, AttChunk.Height, 1, 3, IL_RGB, IL_UNSIGNED_BYTE, NULL);
+			if (!ilTexImage(AttChunk.Width, AttChunk.Height, 1, 3, IL_RGB, IL_UNSIGNED_BYTE, NULL))
+				return IL_FALSE;
 			for (i = 0, j = 0; i < Size; i++, j += 3) {
 				iCurImage->Data[j  ] = Channels[0][i];
 				iCurImage->Data[j+1] = Channels[1][i];
@@ -700,7 +736,9 @@ ILboolean Cleanup()
 		ifree(Alpha);
 	}
 
+	ifree(Pal.Palette);
 	Channels = NULL;
+	NumChannels = 0;
 	Alpha = NULL;
 	Pal.Palette = NULL;
 
-- 
2.43.0


From 65641322132f599b2c055618f80b1bdca6aad053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:17 +0000
Subject: [PATCH 111/115] fix: PXR: notice failures

---
 DevIL/src-IL/src/il_pxr.cpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/DevIL/src-IL/src/il_pxr.cpp b/DevIL/src-IL/src/il_pxr.cpp
index 6c49329..54908c4 100644
--- a/DevIL/src-IL/src/il_pxr.cpp
+++ b/DevIL/src-IL/src/il_pxr.cpp
@@ -83,6 +83,12 @@ ILboolean iLoadPxrInternal()
 {
 	ILushort	Width, Height;
 	ILubyte		Bpp;
+	ILboolean	bCreated;
+
+	if (iCurImage == NULL) {
+		ilSetError(IL_ILLEGAL_OPERATION);
+		return IL_FALSE;
+	}
 
 	Width = sizeof(PIXHEAD);
 
@@ -95,21 +101,25 @@ ILboolean iLoadPxrInternal()
 	switch (Bpp)
 	{
 		case 0x08:
-			ilTexImage(Width, Height, 1, 1, IL_LUMINANCE, IL_UNSIGNED_BYTE, NULL);
+			bCreated = ilTexImage(Width, Height, 1, 1, IL_LUMINANCE, IL_UNSIGNED_BYTE, NULL);
 			break;
 		case 0x0E:
-			ilTexImage(Width, Height, 1, 3, IL_RGB, IL_UNSIGNED_BYTE, NULL);
+			bCreated = ilTexImage(Width, Height, 1, 3, IL_RGB, IL_UNSIGNED_BYTE, NULL);
 			break;
 		case 0x0F:
-			ilTexImage(Width, Height, 1, 4, IL_RGBA, IL_UNSIGNED_BYTE, NULL);
+			bCreated = ilTexImage(Width, Height, 1, 4, IL_RGBA, IL_UNSIGNED_BYTE, NULL);
 			break;
 		default:
 			ilSetError(IL_INVALID_FILE_HEADER);
 			return IL_FALSE;
 	}
 
+	if (!bCreated)
+		return IL_FALSE;
+
 	iseek(1024, IL_SEEK_SET);
-	iread(iCurImage->Data, 1, iCurImage->SizeOfData);
+	if (iread(iCurImage->Data, 1, iCurImage->SizeOfData) != iCurImage->SizeOfData)
+		return IL_FALSE;
 	iCurImage->Origin = IL_ORIGIN_UPPER_LEFT;
 
 	return IL_TRUE;
-- 
2.43.0


From 42430246d9b0db1c075d0f372699351749306a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:17 +0000
Subject: [PATCH 112/115] fix: Scitex: row buffer, file position, short reads
 and extensions

---
 DevIL/src-IL/src/il_scitex.cpp | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/DevIL/src-IL/src/il_scitex.cpp b/DevIL/src-IL/src/il_scitex.cpp
index c2a863d..7fd5008 100644
--- a/DevIL/src-IL/src/il_scitex.cpp
+++ b/DevIL/src-IL/src/il_scitex.cpp
@@ -93,7 +93,8 @@ ILboolean ilIsValidScitex(ILconst_string FileName)
 	ILHANDLE	ScitexFile;
 	ILboolean	bScitex = IL_FALSE;
 
-	if (!iCheckExtension(FileName, IL_TEXT("ct"))) {
+	if (!iCheckExtension(FileName, IL_TEXT("ct")) && !iCheckExtension(FileName, IL_TEXT("ch"))
+		&& !iCheckExtension(FileName, IL_TEXT("sct"))) {
 		ilSetError(IL_INVALID_EXTENSION);
 		return bScitex;
 	}
@@ -138,10 +139,13 @@ ILboolean ilIsValidScitexL(const void *Lump, ILuint Size)
 ILboolean iIsValidScitex(void)
 {
 	SCITEXHEAD Header;
+	ILuint Start = itell();
+	ILboolean bHead;
 
-	if (!iGetScitexHead(&Header))
+	bHead = iGetScitexHead(&Header);
+	iseek(Start, IL_SEEK_SET);
+	if (!bHead)
 		return IL_FALSE;
-	iseek(-2048, IL_SEEK_CUR);
 
 	return iCheckScitex(&Header);
 }
@@ -214,7 +218,7 @@ ILboolean ilLoadScitexL(const void *Lump, ILuint Size)
 ILboolean iLoadScitexInternal(void)
 {
 	SCITEXHEAD Header;
-	ILuint Pos = 0;
+	ILuint Pos = 0, Start;
 	ILubyte *RowData;
 
 	if (iCurImage == NULL) {
@@ -222,6 +226,7 @@ ILboolean iLoadScitexInternal(void)
 		return IL_FALSE;
 	}
 
+	Start = itell();
 	if (!iGetScitexHead(&Header)) {
 		ilSetError(IL_INVALID_FILE_HEADER);
 		return IL_FALSE;
@@ -230,7 +235,7 @@ ILboolean iLoadScitexInternal(void)
 		return IL_FALSE;
 	}
 
-	iseek(2048, IL_SEEK_SET);
+	iseek(Start + 2048, IL_SEEK_SET);
 	RowData = (ILubyte*)ialloc(Header.WidthPixels);
 	if (RowData == NULL)
 		return IL_FALSE;
@@ -275,7 +280,11 @@ ILboolean iLoadScitexInternal(void)
 
 			for (ILuint h = 0; h < iCurImage->Height; h++)
 			{
-				iread(iCurImage->Data + Pos, 1, iCurImage->Width);
+				if (iread(iCurImage->Data + Pos, 1, iCurImage->Width) != iCurImage->Width)
+				{
+					ifree(RowData);
+					return IL_FALSE;
+				}
 				if (iCurImage->Width % 2 != 0)  // Pads to even width
 					igetc();
 				Pos += Header.WidthPixels;
@@ -286,6 +295,7 @@ ILboolean iLoadScitexInternal(void)
 		//case 15:
 		//default:
 	}
+	ifree(RowData);
 	iCurImage->Origin = IL_ORIGIN_UPPER_LEFT;
 
 	return ilFixImage();
-- 
2.43.0


From 41253cf6765a81d7fb355b2f7198f23b66c8bc74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:54 +0000
Subject: [PATCH 113/115] fix: XPM: colours with one digit per component

---
 DevIL/src-IL/src/il_xpm.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DevIL/src-IL/src/il_xpm.cpp b/DevIL/src-IL/src/il_xpm.cpp
index 0b0c710..a2d12cd 100644
--- a/DevIL/src-IL/src/il_xpm.cpp
+++ b/DevIL/src-IL/src/il_xpm.cpp
@@ -512,7 +512,7 @@ ILboolean XpmGetColour(ILubyte *Buffer, ILint Size, int Len, XpmPixel* Colours)
 			}
 			else if(j < strLen) { // 1 digit, strLen >= 1
 				ColBuff[0] = Buffer[i + j];
-				ColBuff[1] = 0;
+				ColBuff[1] = Buffer[i + j];  // F means full intensity
 			}
 
 			ColBuff[2] = 0; // add terminating '\0' char
-- 
2.43.0


From ecb9835ce093b4172b3e76114343c1ac25fcf277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:54 +0000
Subject: [PATCH 114/115] fix: TGA: the first entry of the colour map

---
 DevIL/src-IL/src/il_targa.cpp | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/DevIL/src-IL/src/il_targa.cpp b/DevIL/src-IL/src/il_targa.cpp
index 543b967..accebbe 100644
--- a/DevIL/src-IL/src/il_targa.cpp
+++ b/DevIL/src-IL/src/il_targa.cpp
@@ -254,7 +254,7 @@ ILboolean iLoadTargaInternal()
 ILboolean iReadColMapTga(TARGAHEAD *Header)
 {
 	char		ID[255];
-	ILuint		i, PalSize;
+	ILuint		i, PalSize, Start;
 	ILenum		PalType;
 	ILushort	Pixel;
 	
@@ -267,20 +267,26 @@ ILboolean iReadColMapTga(TARGAHEAD *Header)
 		return IL_FALSE;
 	}
 
+	// The map holds the entries from FirstEntry on.
+	Start = Header->FirstEntry > 0 ? Header->FirstEntry : 0;
+
 	switch (Header->ColMapEntSize)
 	{
 		case 15:
 		case 16:
 			PalType = IL_PAL_BGRA32;
-			PalSize = Header->ColMapLen * 4;
+			PalSize = (Start + Header->ColMapLen) * 4;
+			Start *= 4;
 			break;
 		case 24:
 			PalType = IL_PAL_BGR24;
-			PalSize = Header->ColMapLen * 3;
+			PalSize = (Start + Header->ColMapLen) * 3;
+			Start *= 3;
 			break;
 		case 32:
 			PalType = IL_PAL_BGRA32;
-			PalSize = Header->ColMapLen * 4;
+			PalSize = (Start + Header->ColMapLen) * 4;
+			Start *= 4;
 			break;
 		default:
 			// Should *never* reach here
@@ -299,16 +305,14 @@ ILboolean iReadColMapTga(TARGAHEAD *Header)
 	iCurImage->Pal.PalSize = PalSize;
 	iCurImage->Pal.PalType = PalType;
 	
-	// Do we need to do something with FirstEntry?	Like maybe:
-	//	iread(Image->Pal + Targa->FirstEntry, 1, Image->Pal.PalSize);  ??
 	if (Header->ColMapEntSize > 16)
 	{
-		if (iread(iCurImage->Pal.Palette, 1, iCurImage->Pal.PalSize) != iCurImage->Pal.PalSize)
+		if (iread(iCurImage->Pal.Palette + Start, 1, PalSize - Start) != PalSize - Start)
 			return IL_FALSE;
 	}
 	else {
 		// 16 bit palette, so we have to break it up.
-		for (i = 0; i < iCurImage->Pal.PalSize; i += 4)
+		for (i = Start; i < iCurImage->Pal.PalSize; i += 4)
 		{
 			if (iread(&Pixel, sizeof(Pixel), 1) != 1)
 				return IL_FALSE;
-- 
2.43.0


From ba53dedc736159e244142e5261a2981f4f2c1389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:55 +0000
Subject: [PATCH 115/115] fix: TEXTURE: the handle is left where it was

---
 DevIL/src-IL/src/il_texture.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/DevIL/src-IL/src/il_texture.cpp b/DevIL/src-IL/src/il_texture.cpp
index b20dd45..4fd91b6 100644
--- a/DevIL/src-IL/src/il_texture.cpp
+++ b/DevIL/src-IL/src/il_texture.cpp
@@ -13,6 +13,7 @@
 
 #include "il_internal.h"
 #ifndef IL_NO_TEXTURE
+#include "il_dds.h"
 
 
 //! Reads a TEXTURE file
@@ -37,16 +38,17 @@ ILboolean ilLoadTexture(ILconst_string FileName)
 //! Reads an already-opened TEXTURE file
 ILboolean ilLoadTextureF(ILHANDLE File)
 {
+	ILuint		FirstPos;
 	ILboolean	bRet;
-	
+
 	iSetInputFile(File);
+	FirstPos = itell();
 	// From http://forums.totalwar.org/vb/showthread.php?t=70886, all that needs to be done
 	//  is to strip out the first 48 bytes, and then it is DDS data.
 	iseek(48, IL_SEEK_CUR);
-	bRet = ilLoadDdsF(File);
-	// ilLoadDdsF leaves the file where the DDS data starts.
-	iseek(-48, IL_SEEK_CUR);
-	
+	bRet = iLoadDdsInternal();
+	iseek(FirstPos, IL_SEEK_SET);
+
 	return bRet;
 }
 
-- 
2.43.0

