From b56d6556e813a634e19b144c116489073c42b285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:24 +0000
Subject: [PATCH 01/57] fix: propagate the carry when an increment byte is 0xFF
 in BeIncrease8 and LeIncrease8

---
 CEX/IntegerTools.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/CEX/IntegerTools.h b/CEX/IntegerTools.h
index 425d719..a87353d 100644
--- a/CEX/IntegerTools.h
+++ b/CEX/IntegerTools.h
@@ -1022,7 +1022,7 @@ public:
 			odst = Output[lctr];
 			osrc = ((MAXPOS - lctr) < cinc.size()) ? cinc[MAXPOS - lctr] : 0x00;
 			ndst = odst + osrc + carry;
-			carry = ndst < odst ? 1 : 0;
+			carry = static_cast<uint8_t>((static_cast<uint32_t>(odst) + osrc + carry) >> 8);
 			Output[lctr] = ndst;
 		}
 	}
@@ -1071,7 +1071,7 @@ public:
 			odst = Output[lctr];
 			osrc = ((MAXPOS - lctr) < cinc.size()) ? cinc[MAXPOS - lctr] : 0x00;
 			ndst = static_cast<uint8_t>(odst + osrc + carry);
-			carry = ndst < odst ? 1 : 0;
+			carry = static_cast<uint8_t>((static_cast<uint32_t>(odst) + osrc + carry) >> 8);
 			Output[lctr] = ndst;
 		}
 	}
@@ -1119,7 +1119,7 @@ public:
 			odst = Output[lctr];
 			osrc = ((MAXPOS - lctr) < cinc.size()) ? cinc[MAXPOS - lctr] : 0x00;
 			ndst = static_cast<uint8_t>(odst + osrc + carry);
-			carry = ndst < odst ? 1 : 0;
+			carry = static_cast<uint8_t>((static_cast<uint32_t>(odst) + osrc + carry) >> 8);
 			Output[lctr] = ndst;
 		}
 	}
@@ -1168,7 +1168,7 @@ public:
 			odst = Output[lctr];
 			osrc = ((MAXPOS - lctr) < cinc.size()) ? cinc[MAXPOS - lctr] : 0x00;
 			ndst = static_cast<uint8_t>(odst + osrc + carry);
-			carry = ndst < odst ? 1 : 0;
+			carry = static_cast<uint8_t>((static_cast<uint32_t>(odst) + osrc + carry) >> 8);
 			Output[lctr] = ndst;
 		}
 	}
@@ -1960,7 +1960,7 @@ public:
 			odst = Output[lctr];
 			osrc = (lctr < cinc.size() ? cinc[lctr] : 0x00);
 			ndst = static_cast<uint8_t>(odst + osrc + carry);
-			carry = ndst < odst ? 1 : 0;
+			carry = static_cast<uint8_t>((static_cast<uint32_t>(odst) + osrc + carry) >> 8);
 			Output[lctr] = ndst;
 			++lctr;
 		}
@@ -2008,7 +2008,7 @@ public:
 			odst = Output[lctr];
 			osrc = (lctr < cinc.size() ? cinc[lctr] : 0x00);
 			ndst = static_cast<uint8_t>(odst + osrc + carry);
-			carry = ndst < odst ? 1 : 0;
+			carry = static_cast<uint8_t>((static_cast<uint32_t>(odst) + osrc + carry) >> 8);
 			Output[lctr] = ndst;
 			++lctr;
 		}
@@ -2054,7 +2054,7 @@ public:
 			odst = Output[lctr];
 			osrc = ((lctr - OutOffset < cinc.size()) ? cinc[lctr - OutOffset] : 0x00);
 			ndst = odst + osrc + carry;
-			carry = ndst < odst ? 1 : 0;
+			carry = static_cast<uint8_t>((static_cast<uint32_t>(odst) + osrc + carry) >> 8);
 			Output[lctr] = ndst;
 			++lctr;
 		}
@@ -2101,7 +2101,7 @@ public:
 			odst = Output[lctr];
 			osrc = ((lctr - OutOffset < cinc.size()) ? cinc[lctr - OutOffset] : 0x00);
 			ndst = odst + osrc + carry;
-			carry = ndst < odst ? 1 : 0;
+			carry = static_cast<uint8_t>((static_cast<uint32_t>(odst) + osrc + carry) >> 8);
 			Output[lctr] = ndst;
 			++lctr;
 		}
-- 
2.43.0


From 4d9cd5b5b3ba35a8a31acec50684020afb682db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:40 +0000
Subject: [PATCH 02/57] fix: process the tail bytes in MemoryTools::AND and OR

---
 CEX/MemoryTools.h | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/CEX/MemoryTools.h b/CEX/MemoryTools.h
index c4656f4..3b64bf3 100644
--- a/CEX/MemoryTools.h
+++ b/CEX/MemoryTools.h
@@ -170,7 +170,6 @@ public:
 
 		if (Length != 0)
 		{
-			const size_t ELMLEN = sizeof(ArrayA::value_type);
 			pctr = 0;
 
 #if defined(CEX_HAS_AVX) || defined(CEX_HAS_AVX2) || defined(CEX_HAS_AVX512)
@@ -199,9 +198,12 @@ public:
 				}
 			}
 #endif
-			for (i = 0; i < Length - (pctr * ELMLEN); ++i)
+			const uint8_t* pinp = (const uint8_t*)Input.data() + (InOffset * INPLEN);
+			uint8_t* potp = (uint8_t*)Output.data() + (OutOffset * OTPLEN);
+
+			for (i = pctr; i < Length; ++i)
 			{
-				Output[OutOffset + pctr] &= Input[InOffset + pctr];
+				potp[i] &= pinp[i];
 			}
 		}
 	}
@@ -1100,7 +1102,6 @@ public:
 	{
 		const size_t INPLEN = sizeof(ArrayA::value_type);
 		const size_t OTPLEN = sizeof(ArrayB::value_type);
-		const size_t ELMLEN = sizeof(ArrayA::value_type);
 		size_t i;
 		size_t pctr;
 
@@ -1139,9 +1140,12 @@ public:
 				}
 			}
 #endif
-			for (i = 0; i < Length - (pctr * ELMLEN); ++i)
+			const uint8_t* pinp = (const uint8_t*)Input.data() + (InOffset * INPLEN);
+			uint8_t* potp = (uint8_t*)Output.data() + (OutOffset * OTPLEN);
+
+			for (i = pctr; i < Length; ++i)
 			{
-				Output[OutOffset + pctr] |= Input[InOffset + pctr];
+				potp[i] |= pinp[i];
 			}
 		}
 	}
-- 
2.43.0


From 76aaee64c328430d5cb7ee4b977cd4d7b83cc8b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:41 +0000
Subject: [PATCH 03/57] fix: CMax and CMin select by comparing the two values

---
 CEX/IntegerTools.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CEX/IntegerTools.h b/CEX/IntegerTools.h
index a87353d..e969181 100644
--- a/CEX/IntegerTools.h
+++ b/CEX/IntegerTools.h
@@ -2186,7 +2186,7 @@ public:
 	template<typename T>
 	inline static T CMax(T A, T B)
 	{
-		return Select<T>(ExpandTopBit<T>(A), A, B);
+		return Select<T>(IsLess<T>(A, B), B, A);
 	}
 
 	/// <summary>
@@ -2248,7 +2248,7 @@ public:
 	inline static T CMin(T A, T B)
 	{
 		// TODO: test this..
-		return Select<T>(ExpandTopBit<T>(B), B, A);
+		return Select<T>(IsLess<T>(A, B), A, B);
 	}
 
 	/// <summary>
-- 
2.43.0


From 0759fda4814d77443f747e1d07905b029e84ea5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:41 +0000
Subject: [PATCH 04/57] fix: DiffMask compares every bit of elements wider than
 8 bits

---
 CEX/IntegerTools.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CEX/IntegerTools.h b/CEX/IntegerTools.h
index e969181..cce91f9 100644
--- a/CEX/IntegerTools.h
+++ b/CEX/IntegerTools.h
@@ -2338,7 +2338,7 @@ public:
 	{
 		// 
 		size_t i;
-		uint16_t diff;
+		T diff;
 
 		diff = 0;
 
@@ -2347,7 +2347,7 @@ public:
 			diff |= A[i] ^ B[i];
 		}
 
-		return (1 & ((diff - 1) >> 8)) - 1;
+		return -static_cast<int32_t>(ExpandMask<T>(diff) & 1);
 	}
 
 	/// <summary>
-- 
2.43.0


From 968154a880fc742890cd5ca95ebc524341ba691c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:24 +0000
Subject: [PATCH 05/57] fix: padding checks examine the first byte of the block
 and respect the offset

---
 CEX/ESP.cpp   |  2 +-
 CEX/PKCS7.cpp | 10 +++++-----
 CEX/X923.cpp  | 10 +++++-----
 3 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/CEX/ESP.cpp b/CEX/ESP.cpp
index c51513d..58b907a 100644
--- a/CEX/ESP.cpp
+++ b/CEX/ESP.cpp
@@ -82,7 +82,7 @@ size_t ESP::GetBlockLength(const std::vector<uint8_t> &Input, size_t Offset, siz
 	size_t pos;
 
 	inp = 0;
-	inp |= IntegerTools::ExpandMask<size_t>(FNLPAD > BLKLEN);
+	inp |= IntegerTools::ExpandMask<size_t>(FNLPAD > BLKLEN - Offset);
 	pos = BLKLEN - FNLPAD;
 	ctr = BLKLEN - 1;
 
diff --git a/CEX/PKCS7.cpp b/CEX/PKCS7.cpp
index e8f8cbb..c4abcb7 100644
--- a/CEX/PKCS7.cpp
+++ b/CEX/PKCS7.cpp
@@ -51,7 +51,7 @@ size_t PKCS7::GetBlockLength(const std::vector<uint8_t> &Input)
 	size_t inp;
 	size_t pos;
 
-	ctr = BLKLEN - 2;
+	ctr = BLKLEN - 1;
 	inp = 0;
 	pos = BLKLEN - FNLPAD;
 
@@ -59,8 +59,8 @@ size_t PKCS7::GetBlockLength(const std::vector<uint8_t> &Input)
 
 	while (ctr != 0)
 	{
-		inp |= (~IntegerTools::IsEqual(Input[ctr], FNLPAD)) & IntegerTools::ExpandMask<uint8_t>(ctr >= pos);
 		--ctr;
+		inp |= (~IntegerTools::IsEqual(Input[ctr], FNLPAD)) & IntegerTools::ExpandMask<uint8_t>(ctr >= pos);
 	}
 
 	IntegerTools::ConditionalCopy(inp, &pos, &BLKLEN, &pos, 1);
@@ -81,16 +81,16 @@ size_t PKCS7::GetBlockLength(const std::vector<uint8_t> &Input, size_t Offset, s
 	size_t inp;
 	size_t pos;
 
-	ctr = BLKLEN - 2;
+	ctr = BLKLEN - 1;
 	inp = 0;
 	pos = BLKLEN - FNLPAD;
 
-	inp |= IntegerTools::ExpandMask<size_t>(FNLPAD > BLKLEN);
+	inp |= IntegerTools::ExpandMask<size_t>(FNLPAD > BLKLEN - Offset);
 
 	while (ctr != Offset)
 	{
-		inp |= (~IntegerTools::IsEqual(Input[ctr], FNLPAD)) & IntegerTools::ExpandMask<uint8_t>(ctr >= pos);
 		--ctr;
+		inp |= (~IntegerTools::IsEqual(Input[ctr], FNLPAD)) & IntegerTools::ExpandMask<uint8_t>(ctr >= pos);
 	}
 
 	IntegerTools::ConditionalCopy(inp, &pos, &BLKLEN, &pos, 1);
diff --git a/CEX/X923.cpp b/CEX/X923.cpp
index 619c5a7..e448f98 100644
--- a/CEX/X923.cpp
+++ b/CEX/X923.cpp
@@ -55,12 +55,12 @@ size_t X923::GetBlockLength(const std::vector<uint8_t> &Input)
 	inp = 0;
 	inp |= IntegerTools::ExpandMask<size_t>(FNLPAD > BLKLEN);
 	pos = BLKLEN - FNLPAD;
-	ctr = BLKLEN - 2;
+	ctr = BLKLEN - 1;
 
 	while (ctr != 0)
 	{
-		inp |= (~IntegerTools::IsZero(Input[ctr])) & IntegerTools::ExpandMask<uint8_t>(ctr >= pos);
 		--ctr;
+		inp |= (~IntegerTools::IsZero(Input[ctr])) & IntegerTools::ExpandMask<uint8_t>(ctr >= pos);
 	}
 
 	IntegerTools::ConditionalCopy(inp, &pos, &BLKLEN, &pos, 1);
@@ -82,14 +82,14 @@ size_t X923::GetBlockLength(const std::vector<uint8_t> &Input, size_t Offset, si
 	size_t pos;
 
 	inp = 0;
-	inp |= IntegerTools::ExpandMask<size_t>(FNLPAD > BLKLEN);
+	inp |= IntegerTools::ExpandMask<size_t>(FNLPAD > BLKLEN - Offset);
 	pos = BLKLEN - FNLPAD;
-	ctr = BLKLEN - 2;
+	ctr = BLKLEN - 1;
 
 	while (ctr != Offset)
 	{
-		inp |= (~IntegerTools::IsZero(Input[ctr])) & IntegerTools::ExpandMask<uint8_t>(ctr >= pos);
 		--ctr;
+		inp |= (~IntegerTools::IsZero(Input[ctr])) & IntegerTools::ExpandMask<uint8_t>(ctr >= pos);
 	}
 
 	IntegerTools::ConditionalCopy(inp, &pos, &BLKLEN, &pos, 1);
-- 
2.43.0


From 7cd761199a0f53658291b4ccd8d5bc6e7249ec5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:57 +0000
Subject: [PATCH 06/57] fix: GCM re-initialisation clears the nonce and
 associated data and keeps the hash key

---
 CEX/GCM.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/CEX/GCM.cpp b/CEX/GCM.cpp
index d0ec3e5..352ae00 100644
--- a/CEX/GCM.cpp
+++ b/CEX/GCM.cpp
@@ -185,7 +185,8 @@ const size_t GCM::TagSize()
 void GCM::Initialize(bool Encryption, ISymmetricKey &Parameters)
 {
 	MemoryTools::Clear(m_gcmState->AAD, 0, m_gcmState->AAD.size());
-	m_macAuthenticator->Reset();
+	m_gcmState->AAD.resize(0);
+	m_macAuthenticator->Clear();
 	MemoryTools::Clear(m_gcmState->Buffer, 0, m_gcmState->Buffer.size());
 	m_gcmState->Counter = 0;
 
@@ -253,6 +254,7 @@ void GCM::Initialize(bool Encryption, ISymmetricKey &Parameters)
 	// create the CTR mode nonce
 	if (m_gcmState->Buffer.size() == MIN_TAGSIZE)
 	{
+		MemoryTools::Clear(m_gcmState->Nonce, 0, m_gcmState->Nonce.size());
 		MemoryTools::Copy(m_gcmState->Buffer, 0, m_gcmState->Nonce, 0, m_gcmState->Buffer.size());
 		m_gcmState->Nonce[BLOCK_SIZE - 1] = 0x01;
 	}
-- 
2.43.0


From ba2f4ef149837b4c533fc341b2770a060f1faa6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:27 +0000
Subject: [PATCH 07/57] fix: HBA::SetAssociatedData checks that the range lies
 inside the array

---
 CEX/HBA.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CEX/HBA.cpp b/CEX/HBA.cpp
index 2af782f..b6a206c 100644
--- a/CEX/HBA.cpp
+++ b/CEX/HBA.cpp
@@ -344,7 +344,7 @@ void HBA::SetAssociatedData(const std::vector<uint8_t> &Input, size_t Offset, si
 		throw CryptoCipherModeException(Name(), std::string("SetAssociatedData"), std::string("The cipher has not been initialized!"), ErrorCodes::NotInitialized);
 	}
 
-	if (Length - Offset > Input.size())
+	if (Length > Input.size() || Offset > Input.size() - Length)
 	{
 		throw CryptoCipherModeException(Name(), std::string("SetAssociatedData"), std::string("The input array is too small!"), ErrorCodes::InvalidSize);
 	}
@@ -368,7 +368,7 @@ void HBA::SetAssociatedData(const SecureVector<uint8_t> &Input, size_t Offset, s
 		throw CryptoCipherModeException(Name(), std::string("SetAssociatedData"), std::string("The cipher has not been initialized!"), ErrorCodes::NotInitialized);
 	}
 
-	if (Length - Offset > Input.size())
+	if (Length > Input.size() || Offset > Input.size() - Length)
 	{
 		throw CryptoCipherModeException(Name(), std::string("SetAssociatedData"), std::string("The input array is too small!"), ErrorCodes::InvalidSize);
 	}
-- 
2.43.0


From a344abef3a91938208e1c41342a9fb6712172c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:26 +0000
Subject: [PATCH 08/57] fix: ChaChaP20 and CSX512 wrote the parallel
 remainder's key stream at the wrong output offset

---
 CEX/CSX512.cpp    | 2 +-
 CEX/ChaChaP20.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/CEX/CSX512.cpp b/CEX/CSX512.cpp
index 1b8d477..61d2dc0 100644
--- a/CEX/CSX512.cpp
+++ b/CEX/CSX512.cpp
@@ -686,7 +686,7 @@ void CSX512::Process(const std::vector<uint8_t> &Input, size_t InOffset, std::ve
 		if (RNDLEN < PRCLEN)
 		{
 			const size_t FNLLEN = PRCLEN % RNDLEN;
-			Generate(m_csx512State, Output, RNDLEN, m_csx512State->Nonce, FNLLEN);
+			Generate(m_csx512State, Output, OutOffset + RNDLEN, m_csx512State->Nonce, FNLLEN);
 
 			for (size_t i = 0; i < FNLLEN; ++i)
 			{
diff --git a/CEX/ChaChaP20.cpp b/CEX/ChaChaP20.cpp
index a89e941..faf0ac4 100644
--- a/CEX/ChaChaP20.cpp
+++ b/CEX/ChaChaP20.cpp
@@ -748,7 +748,7 @@ void ChaChaP20::Process(const std::vector<uint8_t> &Input, size_t InOffset, std:
 		if (RNDLEN < PRCLEN)
 		{
 			const size_t FNLLEN = PRCLEN % RNDLEN;
-			Generate(m_csx256State, m_csx256State->Nonce, Output, RNDLEN, FNLLEN);
+			Generate(m_csx256State, m_csx256State->Nonce, Output, OutOffset + RNDLEN, FNLLEN);
 
 			for (size_t i = 0; i < FNLLEN; ++i)
 			{
-- 
2.43.0


From d913f6c67f06da6e5d0e42444ad65ea8febf77b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:53 +0000
Subject: [PATCH 09/57] fix: RCS and RWS kept an empty customization as zero
 bytes when re-initialised without info

---
 CEX/RCS.cpp | 4 +++-
 CEX/RWS.cpp | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/CEX/RCS.cpp b/CEX/RCS.cpp
index 3444fb1..4d6da8a 100644
--- a/CEX/RCS.cpp
+++ b/CEX/RCS.cpp
@@ -443,9 +443,11 @@ void RCS::Initialize(bool Encryption, ISymmetricKey &Parameters)
 	}
 
 	// store the customization string -v1.0d
+	// the customization is empty when the key has no info
+	m_rcsState->Custom.resize(Parameters.KeySizes().InfoSize());
+
 	if (Parameters.KeySizes().InfoSize() != 0)
 	{
-		m_rcsState->Custom.resize(Parameters.KeySizes().InfoSize());
 		// copy the user defined string to the customization parameter
 		MemoryTools::Copy(Parameters.Info(), 0, m_rcsState->Custom, 0, Parameters.KeySizes().InfoSize());
 	}
diff --git a/CEX/RWS.cpp b/CEX/RWS.cpp
index 1724c09..04a9e7e 100644
--- a/CEX/RWS.cpp
+++ b/CEX/RWS.cpp
@@ -408,9 +408,11 @@ void RWS::Initialize(bool Encryption, ISymmetricKey &Parameters)
 	m_rwsState->Counter = 0;
 
 	// store the customization string
+	// the customization is empty when the key has no info
+	m_rwsState->Custom.resize(Parameters.KeySizes().InfoSize());
+
 	if (Parameters.KeySizes().InfoSize() != 0)
 	{
-		m_rwsState->Custom.resize(Parameters.KeySizes().InfoSize());
 		// copy the user defined string to the customization parameter
 		MemoryTools::Copy(Parameters.Info(), 0, m_rwsState->Custom, 0, Parameters.KeySizes().InfoSize());
 	}
-- 
2.43.0


From dcd2fa6197d28a491652c8cf4717770375bd5929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:53 +0000
Subject: [PATCH 10/57] fix: RCS and RWS parallel lanes carried past the 128
 counter bits that sequential processing uses

---
 CEX/RCS.cpp | 2 +-
 CEX/RWS.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/CEX/RCS.cpp b/CEX/RCS.cpp
index 4d6da8a..3646063 100644
--- a/CEX/RCS.cpp
+++ b/CEX/RCS.cpp
@@ -835,7 +835,7 @@ void RCS::ProcessParallel(const std::vector<uint8_t> &Input, size_t InOffset, st
 		// thread level counter
 		std::vector<uint8_t> thdc(BLOCK_SIZE);
 		// offset counter by chunk size / block size  
-		IntegerTools::LeIncrease8(m_rcsState->Nonce, thdc, static_cast<uint32_t>(CTRLEN * i));
+		IntegerTools::LeIncrease8(m_rcsState->Nonce, thdc, 0, 16, static_cast<uint32_t>(CTRLEN * i));
 		const size_t STMPOS = i * CNKLEN;
 		// generate random at output offset
 		this->Generate(Output, OutOffset + STMPOS, CNKLEN, thdc);
diff --git a/CEX/RWS.cpp b/CEX/RWS.cpp
index 04a9e7e..509c248 100644
--- a/CEX/RWS.cpp
+++ b/CEX/RWS.cpp
@@ -767,7 +767,7 @@ void RWS::ProcessParallel(const std::vector<uint8_t> &Input, size_t InOffset, st
 		// thread level counter
 		std::vector<uint8_t> thdc(BLOCK_SIZE);
 		// offset counter by chunk size / block size  
-		IntegerTools::LeIncrease8(m_rwsState->Nonce, thdc, static_cast<uint32_t>(CTRLEN * i));
+		IntegerTools::LeIncrease8(m_rwsState->Nonce, thdc, 0, 16, static_cast<uint32_t>(CTRLEN * i));
 		const size_t STMPOS = i * CNKLEN;
 		// generate random at output offset
 		this->Generate(Output, OutOffset + STMPOS, CNKLEN, thdc);
-- 
2.43.0


From c4766e22003e9493df8c352fbf1f7d26ef310567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:53 +0000
Subject: [PATCH 11/57] fix: CSX512 mixed a previous key's info into a shorter
 one

---
 CEX/CSX512.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/CEX/CSX512.cpp b/CEX/CSX512.cpp
index 61d2dc0..cdd42e3 100644
--- a/CEX/CSX512.cpp
+++ b/CEX/CSX512.cpp
@@ -109,6 +109,7 @@ public:
 	{
 		MemoryTools::Clear(Nonce, 0, Nonce.size() * sizeof(uint64_t));
 		MemoryTools::Clear(State, 0, State.size() * sizeof(uint64_t));
+		MemoryTools::Clear(Custom, 0, Custom.size());
 		MemoryTools::Clear(MacTag, 0, MacTag.size());
 		Counter = 0;
 		IsEncryption = false;
-- 
2.43.0


From e1f3ed4aeeef2335ad65fc5499e03eae563ed984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:06 +0000
Subject: [PATCH 12/57] fix: TSX1024 checks the output for room for its own 128
 byte tag

---
 CEX/TSX1024.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CEX/TSX1024.cpp b/CEX/TSX1024.cpp
index 757b156..c0e7b68 100644
--- a/CEX/TSX1024.cpp
+++ b/CEX/TSX1024.cpp
@@ -354,7 +354,7 @@ void TSX1024::Transform(const std::vector<uint8_t> &Input, size_t InOffset, std:
 	{
 		if (IsAuthenticator() == true)
 		{
-			if (Output.size() < Length + OutOffset + m_macAuthenticator->TagSize())
+			if (Output.size() < Length + OutOffset + TagSize())
 			{
 				throw CryptoSymmetricException(Name(), std::string("Transform"), std::string("The vector is not int64_t enough to add the MAC code!"), ErrorCodes::InvalidSize);
 			}
-- 
2.43.0


From 336cef86991987eff397fffe56ca1742119ec566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:15 +0000
Subject: [PATCH 13/57] fix: parallel Blake2 drops half a buffer, does not
 count blocks and sizes its buffer wrongly

Update discarded the upper half of a full message buffer, leaf processing of large
input did not advance the block counter, ParallelMaxDegree allocated half the buffer
that tree hashing needs, and a short message underflowed the length in Finalize.
---
 CEX/Blake256.cpp | 7 +++++--
 CEX/Blake512.cpp | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/CEX/Blake256.cpp b/CEX/Blake256.cpp
index e16a007..59ffbf8 100644
--- a/CEX/Blake256.cpp
+++ b/CEX/Blake256.cpp
@@ -235,7 +235,7 @@ void Blake256::Finalize(std::vector<uint8_t> &Output, size_t OutOffset)
 
 			IntegerTools::LeIncreaseW(m_dgtState[i].T, m_dgtState[i].T, blen);
 			Permute(m_msgBuffer, i * Blake::BLAKE256_RATE_SIZE, m_dgtState[i]);
-			m_msgLength -= Blake::BLAKE256_RATE_SIZE;
+			m_msgLength -= IntegerTools::Min(m_msgLength, static_cast<size_t>(Blake::BLAKE256_RATE_SIZE));
 
 			IntegerTools::LeUL256ToBlock(m_dgtState[i].H, 0, codes, i * Blake::BLAKE256_DIGEST_SIZE);
 		}
@@ -356,7 +356,7 @@ void Blake256::ParallelMaxDegree(size_t Degree)
 	m_dgtState.clear();
 	m_dgtState.resize(Degree);
 	m_msgBuffer.clear();
-	m_msgBuffer.resize(Degree * Blake::BLAKE256_RATE_SIZE);
+	m_msgBuffer.resize(2 * Degree * Blake::BLAKE256_RATE_SIZE);
 
 	if (Degree > 1 && m_parallelProfile.ProcessorCount() > 1)
 	{
@@ -453,6 +453,8 @@ void Blake256::Update(const std::vector<uint8_t> &Input, size_t InOffset, size_t
 				{
 					IntegerTools::LeIncreaseW(m_dgtState[i].T, m_dgtState[i].T, Blake::BLAKE256_RATE_SIZE);
 					Permute(m_msgBuffer, i * Blake::BLAKE256_RATE_SIZE, m_dgtState[i]);
+					IntegerTools::LeIncreaseW(m_dgtState[i].T, m_dgtState[i].T, Blake::BLAKE256_RATE_SIZE);
+					Permute(m_msgBuffer, m_parallelProfile.ParallelMinimumSize() + (i * Blake::BLAKE256_RATE_SIZE), m_dgtState[i]);
 				});
 
 				// loop in the remainder (no buffering)
@@ -580,6 +582,7 @@ void Blake256::ProcessLeaf(const std::vector<uint8_t> &Input, size_t InOffset, s
 {
 	do
 	{
+		IntegerTools::LeIncreaseW(State.T, State.T, Blake::BLAKE256_RATE_SIZE);
 		Permute(Input, InOffset, State);
 		InOffset += m_parallelProfile.ParallelMinimumSize();
 		Length -= m_parallelProfile.ParallelMinimumSize();
diff --git a/CEX/Blake512.cpp b/CEX/Blake512.cpp
index 067c8ef..5ff79d6 100644
--- a/CEX/Blake512.cpp
+++ b/CEX/Blake512.cpp
@@ -237,7 +237,7 @@ void Blake512::Finalize(std::vector<uint8_t> &Output, size_t OutOffset)
 
 			IntegerTools::LeIncreaseW(m_dgtState[i].T, m_dgtState[i].T, blen);
 			Permute(m_msgBuffer, i * Blake::BLAKE512_RATE_SIZE, m_dgtState[i]);
-			m_msgLength -= Blake::BLAKE512_RATE_SIZE;
+			m_msgLength -= IntegerTools::Min(m_msgLength, static_cast<size_t>(Blake::BLAKE512_RATE_SIZE));
 			IntegerTools::LeULL512ToBlock(m_dgtState[i].H, 0, codes, i * Blake::BLAKE512_DIGEST_SIZE);
 		}
 
@@ -357,7 +357,7 @@ void Blake512::ParallelMaxDegree(size_t Degree)
 	m_dgtState.clear();
 	m_dgtState.resize(Degree);
 	m_msgBuffer.clear();
-	m_msgBuffer.resize(Degree * Blake::BLAKE512_RATE_SIZE);
+	m_msgBuffer.resize(2 * Degree * Blake::BLAKE512_RATE_SIZE);
 
 	if (Degree > 1 && m_parallelProfile.ProcessorCount() > 1)
 	{
@@ -454,6 +454,8 @@ void Blake512::Update(const std::vector<uint8_t> &Input, size_t InOffset, size_t
 				{
 					IntegerTools::LeIncreaseW(m_dgtState[i].T, m_dgtState[i].T, Blake::BLAKE512_RATE_SIZE);
 					Permute(m_msgBuffer, i * Blake::BLAKE512_RATE_SIZE, m_dgtState[i]);
+					IntegerTools::LeIncreaseW(m_dgtState[i].T, m_dgtState[i].T, Blake::BLAKE512_RATE_SIZE);
+					Permute(m_msgBuffer, m_parallelProfile.ParallelMinimumSize() + (i * Blake::BLAKE512_RATE_SIZE), m_dgtState[i]);
 				});
 
 				// loop in the remainder (no buffering)
@@ -581,6 +583,7 @@ void Blake512::ProcessLeaf(const std::vector<uint8_t> &Input, size_t InOffset, u
 {
 	do
 	{
+		IntegerTools::LeIncreaseW(State.T, State.T, Blake::BLAKE512_RATE_SIZE);
 		Permute(Input, InOffset, State);
 		InOffset += m_parallelProfile.ParallelMinimumSize();
 		Length -= m_parallelProfile.ParallelMinimumSize();
-- 
2.43.0


From d88ade78c30e603f98e504099e9ce03a3c182795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:15 +0000
Subject: [PATCH 14/57] fix: parallel SHA3 resizes its states and buffer with
 the degree

---
 CEX/SHA3256.cpp | 4 ++++
 CEX/SHA3512.cpp | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/CEX/SHA3256.cpp b/CEX/SHA3256.cpp
index 2ce4ef9..8aa18ac 100644
--- a/CEX/SHA3256.cpp
+++ b/CEX/SHA3256.cpp
@@ -216,6 +216,10 @@ void SHA3256::ParallelMaxDegree(size_t Degree)
 	}
 
 	m_parallelProfile.SetMaxDegree(Degree);
+	m_dgtState.clear();
+	m_dgtState.resize(m_parallelProfile.IsParallel() ? m_parallelProfile.ParallelMaxDegree() : 1);
+	m_msgBuffer.clear();
+	m_msgBuffer.resize(m_dgtState.size() * Keccak::KECCAK256_RATE_SIZE);
 
 	Reset();
 }
diff --git a/CEX/SHA3512.cpp b/CEX/SHA3512.cpp
index 430b0eb..59caa06 100644
--- a/CEX/SHA3512.cpp
+++ b/CEX/SHA3512.cpp
@@ -216,6 +216,10 @@ void SHA3512::ParallelMaxDegree(size_t Degree)
 	}
 
 	m_parallelProfile.SetMaxDegree(Degree);
+	m_dgtState.clear();
+	m_dgtState.resize(m_parallelProfile.IsParallel() ? m_parallelProfile.ParallelMaxDegree() : 1);
+	m_msgBuffer.clear();
+	m_msgBuffer.resize(m_dgtState.size() * Keccak::KECCAK512_RATE_SIZE);
 
 	Reset();
 }
-- 
2.43.0


From 80fff68a0f170a9c931f3282e9173bea40f2d8f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:32 +0000
Subject: [PATCH 15/57] fix: the root of a parallel SHA2 hash covers every leaf

Leaf digests were written one block apart but hashed as if adjacent, so the upper half
of the leaves did not reach the digest; padding of a leaf cleared the wrong block.
---
 CEX/SHA2256.cpp | 4 ++--
 CEX/SHA2512.cpp | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/CEX/SHA2256.cpp b/CEX/SHA2256.cpp
index 024c3da..eeed0b9 100644
--- a/CEX/SHA2256.cpp
+++ b/CEX/SHA2256.cpp
@@ -183,7 +183,7 @@ void SHA2256::Finalize(std::vector<uint8_t> &Output, size_t OutOffset)
 		// add state blocks as contiguous message input
 		for (i = 0; i < m_dgtState.size(); ++i)
 		{
-			IntegerTools::BeUL256ToBlock(m_dgtState[i].H, 0, m_msgBuffer, i * SHA2::SHA2256_RATE_SIZE);
+			IntegerTools::BeUL256ToBlock(m_dgtState[i].H, 0, m_msgBuffer, i * SHA2::SHA2256_DIGEST_SIZE);
 			m_msgLength += SHA2::SHA2256_DIGEST_SIZE;
 		}
 
@@ -387,7 +387,7 @@ void SHA2256::HashFinal(std::vector<uint8_t> &Input, size_t InOffset, size_t Len
 	if (Length > 56)
 	{
 		Permute(Input, InOffset, State);
-		MemoryTools::Clear(Input, 0, SHA2::SHA2256_RATE_SIZE);
+		MemoryTools::Clear(Input, InOffset, SHA2::SHA2256_RATE_SIZE);
 	}
 
 	// finalize state with counter and last compression
diff --git a/CEX/SHA2512.cpp b/CEX/SHA2512.cpp
index e988939..3fb4c82 100644
--- a/CEX/SHA2512.cpp
+++ b/CEX/SHA2512.cpp
@@ -186,7 +186,7 @@ void SHA2512::Finalize(std::vector<uint8_t> &Output, size_t OutOffset)
 		// add state blocks as contiguous message input
 		for (i = 0; i < m_dgtState.size(); ++i)
 		{
-			IntegerTools::BeULL512ToBlock(m_dgtState[i].H, 0, m_msgBuffer, i * SHA2::SHA2512_RATE_SIZE);
+			IntegerTools::BeULL512ToBlock(m_dgtState[i].H, 0, m_msgBuffer, i * SHA2::SHA2512_DIGEST_SIZE);
 			m_msgLength += SHA2::SHA2512_DIGEST_SIZE;
 		}
 
-- 
2.43.0


From 0b473193abf28f655217942e6f45648ab9e0c5e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:50 +0000
Subject: [PATCH 16/57] fix: SHA2 eight and sixteen lane SHA-256 read the
 fourth block from the wrong offset

---
 CEX/SHA2.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CEX/SHA2.h b/CEX/SHA2.h
index 580b4e5..1c7f3c5 100644
--- a/CEX/SHA2.h
+++ b/CEX/SHA2.h
@@ -863,7 +863,7 @@ public:
 				IntegerTools::BeBytesTo32(Input, InOffset + (i * sizeof(uint32_t))),
 				IntegerTools::BeBytesTo32(Input, InOffset + (i * sizeof(uint32_t)) + 64),
 				IntegerTools::BeBytesTo32(Input, InOffset + (i * sizeof(uint32_t)) + 128),
-				IntegerTools::BeBytesTo32(Input, InOffset + (i * sizeof(uint32_t)) + 196),
+				IntegerTools::BeBytesTo32(Input, InOffset + (i * sizeof(uint32_t)) + 192),
 				IntegerTools::BeBytesTo32(Input, InOffset + (i * sizeof(uint32_t)) + 256),
 				IntegerTools::BeBytesTo32(Input, InOffset + (i * sizeof(uint32_t)) + 320),
 				IntegerTools::BeBytesTo32(Input, InOffset + (i * sizeof(uint32_t)) + 384),
@@ -953,7 +953,7 @@ public:
 				IntegerTools::BeBytesTo32(Input, InOffset + (i * sizeof(uint32_t))),
 				IntegerTools::BeBytesTo32(Input, InOffset + (i * sizeof(uint32_t)) + 64),
 				IntegerTools::BeBytesTo32(Input, InOffset + (i * sizeof(uint32_t)) + 128),
-				IntegerTools::BeBytesTo32(Input, InOffset + (i * sizeof(uint32_t)) + 196),
+				IntegerTools::BeBytesTo32(Input, InOffset + (i * sizeof(uint32_t)) + 192),
 				IntegerTools::BeBytesTo32(Input, InOffset + (i * sizeof(uint32_t)) + 256),
 				IntegerTools::BeBytesTo32(Input, InOffset + (i * sizeof(uint32_t)) + 320),
 				IntegerTools::BeBytesTo32(Input, InOffset + (i * sizeof(uint32_t)) + 384),
-- 
2.43.0


From d4e48ae81a02467fffbd126a585fa7280a94e8ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:18 +0000
Subject: [PATCH 17/57] fix: RHX without a KDF refuses 512-bit keys, which its
 key schedule does not have

---
 CEX/RHX.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/CEX/RHX.cpp b/CEX/RHX.cpp
index 81aa40e..c656455 100644
--- a/CEX/RHX.cpp
+++ b/CEX/RHX.cpp
@@ -40,6 +40,11 @@ public:
 		Extension(CipherExtension),
 		Destroyed(IsDestroyed)
 	{
+		// the standard key schedule has no 512-bit key; it is only legal in extended mode
+		if (Extension == BlockCipherExtensions::None)
+		{
+			LegalKeySizes.pop_back();
+		}
 	}
 
 	~RhxState()
-- 
2.43.0


From 91d777d704ba5159e78d22e751ed730f8bed5789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:12 +0000
Subject: [PATCH 18/57] fix: KMAC length encoding and domain byte stay within
 the rate block

---
 CEX/KMAC.cpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/CEX/KMAC.cpp b/CEX/KMAC.cpp
index e82c5c1..442bfab 100644
--- a/CEX/KMAC.cpp
+++ b/CEX/KMAC.cpp
@@ -162,12 +162,24 @@ size_t KMAC::Finalize(SecureVector<uint8_t> &Output, size_t OutOffset)
 	olen = Output.size() - OutOffset;
 	blen = Keccak::RightEncode(buf, 0, static_cast<uint64_t>(olen) * sizeof(uint64_t));
 
-	for (i = 0; i < blen; i++)
+	for (i = 0; i <= blen; i++)
 	{
-		m_kmacState->Buffer[m_kmacState->Position + i] = buf[i];
+		// the encoded length may run into another block
+		if (m_kmacState->Position == m_kmacState->Rate)
+		{
+			Keccak::FastAbsorb(m_kmacState->Buffer, 0, m_kmacState->Rate, m_kmacState->State);
+			Permute(m_kmacState);
+			MemoryTools::Clear(m_kmacState->Buffer, 0, m_kmacState->Buffer.size());
+			m_kmacState->Position = 0;
+		}
+
+		if (i != blen)
+		{
+			m_kmacState->Buffer[m_kmacState->Position] = buf[i];
+			++m_kmacState->Position;
+		}
 	}
 
-	m_kmacState->Position += blen;
 	m_kmacState->Buffer[m_kmacState->Position] = Keccak::KECCAK_KMAC_DOMAIN;
 	m_kmacState->Buffer[m_kmacState->Rate - 1] |= 128;
 
-- 
2.43.0


From c5868a9f7ecf92a53a56efcfbd9fafc3b4e57623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:12 +0000
Subject: [PATCH 19/57] fix: Keccak customization length crossing a rate
 boundary is absorbed, not written past it

---
 CEX/Keccak.h | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/CEX/Keccak.h b/CEX/Keccak.h
index 677892d..2ef50c0 100644
--- a/CEX/Keccak.h
+++ b/CEX/Keccak.h
@@ -391,7 +391,22 @@ public:
 			}
 		}
 
-		offset += LeftEncode(pad, offset, static_cast<uint64_t>(Customization.size()) * 8);
+		// the encoded length may run into another block
+		std::array<uint8_t, sizeof(size_t) + 1> enc = { 0 };
+		const size_t ENCLEN = LeftEncode(enc, 0, static_cast<uint64_t>(Customization.size()) * 8);
+
+		for (i = 0; i < ENCLEN; ++i)
+		{
+			if (offset == Rate)
+			{
+				FastAbsorb(pad, 0, Rate, State);
+				Permute(State, Rounds);
+				offset = 0;
+			}
+
+			pad[offset] = enc[i];
+			++offset;
+		}
 
 		if (Customization.size() != 0)
 		{
-- 
2.43.0


From 9f0ba52d173993d25b7fdb78122ccbde6f9b6e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:26 +0000
Subject: [PATCH 20/57] fix: KPA512 reports its tag size

---
 CEX/KPA.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CEX/KPA.cpp b/CEX/KPA.cpp
index 018104f..21d6f6c 100644
--- a/CEX/KPA.cpp
+++ b/CEX/KPA.cpp
@@ -117,7 +117,7 @@ KPA::KPA(KpaModes KbaModeType)
 		0,
 		(KbaModeType == KpaModes::KPA128 ? Keccak::KECCAK128_DIGEST_SIZE :
 			KbaModeType == KpaModes::KPA256 ? Keccak::KECCAK256_DIGEST_SIZE :
-			KbaModeType == KpaModes::KPA512)),
+			KbaModeType == KpaModes::KPA512 ? Keccak::KECCAK512_DIGEST_SIZE : 0)),
 	m_kbaState(KbaModeType != KpaModes::None ? new KpaState(BlockSize(), TagSize(), KbaModeType) :
 		throw CryptoMacException(std::string("KPA"), std::string("Constructor"), std::string("The kmac mode type is not supported!"), ErrorCodes::InvalidParam))
 {
-- 
2.43.0


From d28566b9c6879cd9ca15c3611662b3ab1cb3d6cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:26 +0000
Subject: [PATCH 21/57] fix: KPA writes its tag at the output offset

---
 CEX/KPA.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/CEX/KPA.cpp b/CEX/KPA.cpp
index 21d6f6c..b0219d7 100644
--- a/CEX/KPA.cpp
+++ b/CEX/KPA.cpp
@@ -202,8 +202,8 @@ KPA::KPA(KpaModes KbaModeType)
 		size_t outlen;
 		size_t outoft;
 
-		outlen = Output.size();
-		outoft = 0;
+		outlen = Output.size() - OutOffset;
+		outoft = OutOffset;
 
 		// clear unused buffer
 		if (m_kbaState->Position != 0)
@@ -234,7 +234,7 @@ KPA::KPA(KpaModes KbaModeType)
 		MemoryTools::Clear(m_kbaState->Buffer, 0, m_kbaState->Buffer.size());
 
 		// add total processed bytes and output length to padding string
-		bitlen = Keccak::RightEncode(prcb, 0, 8ULL * Output.size());
+		bitlen = Keccak::RightEncode(prcb, 0, 8ULL * outlen);
 		bitlen += Keccak::RightEncode(prcb, bitlen, 8ULL * m_kbaState->Processed);
 		// copy to buffer
 		MemoryTools::Copy(prcb, 0, m_kbaState->Buffer, 0, bitlen);
@@ -268,7 +268,7 @@ KPA::KPA(KpaModes KbaModeType)
 		m_kbaState->Position = 0;
 		m_kbaState->Processed = 0;
 
-		return Output.size();
+		return Output.size() - OutOffset;
 	}
 
 	void KPA::Initialize(ISymmetricKey &Parameters)
-- 
2.43.0


From d8e18bee6347d515382a8b1022969b45b2f7685a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:53 +0000
Subject: [PATCH 22/57] fix: Donna128 shifts keep the order of the words

---
 CEX/Donna128.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/CEX/Donna128.h b/CEX/Donna128.h
index 7449a2f..4bdb805 100644
--- a/CEX/Donna128.h
+++ b/CEX/Donna128.h
@@ -78,7 +78,7 @@ public:
 	/// <returns>The shifted value</returns>
 	inline Donna128 operator >> (size_t Shift)
 	{
-		Donna128 z(high, low);
+		Donna128 z(low, high);
 
 		if (Shift > 0)
 		{
@@ -99,7 +99,7 @@ public:
 	/// <returns>The shifted value</returns>
 	inline Donna128 operator << (size_t Shift)
 	{
-		Donna128 z(high, low);
+		Donna128 z(low, high);
 
 		if (Shift > 0)
 		{
@@ -248,7 +248,7 @@ public:
 	/// <returns>The sum value</returns>
 	inline static uint64_t CarryShift(Donna128 &X, size_t Shift)
 	{
-		Donna128 z(X.high, X.low);
+		Donna128 z(X.low, X.high);
 
 		return (z >> Shift).Low();
 	}
-- 
2.43.0


From c0449dc5ec26db78cd59103861b90f288f4d63ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:09:03 +0000
Subject: [PATCH 23/57] fix: increment and decrement of the vector integers
 change the object

---
 CEX/UInt128.h   | 20 ++++++++++++++++----
 CEX/UInt256.h   | 20 ++++++++++++++++----
 CEX/ULong256.h  | 10 ++++++++--
 CEX/UShort128.h | 20 ++++++++++++++++----
 4 files changed, 56 insertions(+), 14 deletions(-)

diff --git a/CEX/UInt128.h b/CEX/UInt128.h
index ad304f4..ecb173f 100644
--- a/CEX/UInt128.h
+++ b/CEX/UInt128.h
@@ -437,7 +437,9 @@ public:
 	/// </summary>
 	inline UInt128 operator ++ ()
 	{
-		return UInt128(xmm) + UInt128::ONE();
+		*this += ONE();
+
+		return *this;
 	}
 
 	/// <summary>
@@ -445,7 +447,11 @@ public:
 	/// </summary>
 	inline UInt128 operator ++ (int32_t)
 	{
-		return UInt128(xmm) + UInt128::ONE();
+		const UInt128 TMPV(xmm);
+
+		*this += ONE();
+
+		return TMPV;
 	}
 
 	/// <summary>
@@ -473,7 +479,9 @@ public:
 	/// </summary>
 	inline UInt128 operator -- ()
 	{
-		return UInt128(xmm) - UInt128::ONE();
+		*this -= ONE();
+
+		return *this;
 	}
 
 	/// <summary>
@@ -481,7 +489,11 @@ public:
 	/// </summary>
 	inline UInt128 operator -- (int32_t)
 	{
-		return UInt128(xmm) - UInt128::ONE();
+		const UInt128 TMPV(xmm);
+
+		*this -= ONE();
+
+		return TMPV;
 	}
 
 	/// <summary>
diff --git a/CEX/UInt256.h b/CEX/UInt256.h
index b09e7d8..19c11b8 100644
--- a/CEX/UInt256.h
+++ b/CEX/UInt256.h
@@ -446,7 +446,9 @@ public:
 	/// </summary>
 	inline UInt256 operator ++ ()
 	{
-		return UInt256(ymm) + UInt256::ONE();
+		*this += ONE();
+
+		return *this;
 	}
 
 	/// <summary>
@@ -454,7 +456,11 @@ public:
 	/// </summary>
 	inline UInt256 operator ++ (int32_t)
 	{
-		return UInt256(ymm) + UInt256::ONE();
+		const UInt256 TMPV(ymm);
+
+		*this += ONE();
+
+		return TMPV;
 	}
 
 	/// <summary>
@@ -482,7 +488,9 @@ public:
 	/// </summary>
 	inline UInt256 operator -- ()
 	{
-		return UInt256(ymm) - UInt256::ONE();
+		*this -= ONE();
+
+		return *this;
 	}
 
 	/// <summary>
@@ -490,7 +498,11 @@ public:
 	/// </summary>
 	inline UInt256 operator -- (int32_t)
 	{
-		return UInt256(ymm) - UInt256::ONE();
+		const UInt256 TMPV(ymm);
+
+		*this -= ONE();
+
+		return TMPV;
 	}
 
 	/// <summary>
diff --git a/CEX/ULong256.h b/CEX/ULong256.h
index 45818bf..af2a9a9 100644
--- a/CEX/ULong256.h
+++ b/CEX/ULong256.h
@@ -355,7 +355,9 @@ public:
 	/// </summary>
 	inline ULong256 operator ++ ()
 	{
-		return ULong256(ymm) + ULong256::ONE();
+		*this += ONE();
+
+		return *this;
 	}
 
 	/// <summary>
@@ -363,7 +365,11 @@ public:
 	/// </summary>
 	inline ULong256 operator ++ (int32_t)
 	{
-		return ULong256(ymm) + ULong256::ONE();
+		const ULong256 TMPV(ymm);
+
+		*this += ONE();
+
+		return TMPV;
 	}
 
 	/// <summary>
diff --git a/CEX/UShort128.h b/CEX/UShort128.h
index b1e06c8..907fb9e 100644
--- a/CEX/UShort128.h
+++ b/CEX/UShort128.h
@@ -384,7 +384,9 @@ public:
 	/// </summary>
 	inline UShort128 operator ++ ()
 	{
-		return UShort128(xmm) + ONE();
+		*this += ONE();
+
+		return *this;
 	}
 
 	/// <summary>
@@ -392,7 +394,11 @@ public:
 	/// </summary>
 	inline UShort128 operator ++ (int32_t)
 	{
-		return UShort128(xmm) + ONE();
+		const UShort128 TMPV(xmm);
+
+		*this += ONE();
+
+		return TMPV;
 	}
 
 	/// <summary>
@@ -420,7 +426,9 @@ public:
 	/// </summary>
 	inline UShort128 operator -- ()
 	{
-		return UShort128(xmm) - ONE();
+		*this -= ONE();
+
+		return *this;
 	}
 
 	/// <summary>
@@ -428,7 +436,11 @@ public:
 	/// </summary>
 	inline UShort128 operator -- (int32_t)
 	{
-		return UShort128(xmm) - ONE();
+		const UShort128 TMPV(xmm);
+
+		*this -= ONE();
+
+		return TMPV;
 	}
 
 	/// <summary>
-- 
2.43.0


From 099ee6d5c5ec554d12a898cba12709bbf8065de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:09:03 +0000
Subject: [PATCH 24/57] fix: AndNot of the vector integers complements the
 argument, not the object

---
 CEX/UInt128.h   | 2 +-
 CEX/UInt256.h   | 2 +-
 CEX/ULong256.h  | 2 +-
 CEX/UShort128.h | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/CEX/UInt128.h b/CEX/UInt128.h
index ecb173f..ffbeaf4 100644
--- a/CEX/UInt128.h
+++ b/CEX/UInt128.h
@@ -247,7 +247,7 @@ public:
 	/// <returns>The processed UInt128</returns>
 	inline UInt128 AndNot(const UInt128 &Value)
 	{
-		return UInt128(_mm_andnot_si128(xmm, Value.xmm));
+		return UInt128(_mm_andnot_si128(Value.xmm, xmm));
 	}
 
 	/// <summary>
diff --git a/CEX/UInt256.h b/CEX/UInt256.h
index 19c11b8..34f37ef 100644
--- a/CEX/UInt256.h
+++ b/CEX/UInt256.h
@@ -256,7 +256,7 @@ public:
 	/// <returns>The processed UInt256</returns>
 	inline UInt256 AndNot(const UInt256 &X)
 	{
-		return UInt256(_mm256_andnot_si256(ymm, X.ymm));
+		return UInt256(_mm256_andnot_si256(X.ymm, ymm));
 	}
 
 	/// <summary>
diff --git a/CEX/ULong256.h b/CEX/ULong256.h
index af2a9a9..a42ad65 100644
--- a/CEX/ULong256.h
+++ b/CEX/ULong256.h
@@ -233,7 +233,7 @@ public:
 	/// <returns>The processed ULong256</returns>
 	inline ULong256 AndNot(const ULong256 &X)
 	{
-		return ULong256(_mm256_andnot_si256(ymm, X.ymm));
+		return ULong256(_mm256_andnot_si256(X.ymm, ymm));
 	}
 
 	/// <summary>
diff --git a/CEX/UShort128.h b/CEX/UShort128.h
index 907fb9e..b5714ab 100644
--- a/CEX/UShort128.h
+++ b/CEX/UShort128.h
@@ -200,7 +200,7 @@ public:
 	/// <returns>The processed UShort128</returns>
 	inline UShort128 AndNot(const UShort128 &Value)
 	{
-		return UShort128(_mm_andnot_si128(xmm, Value.xmm));
+		return UShort128(_mm_andnot_si128(Value.xmm, xmm));
 	}
 
 	/// <summary>
-- 
2.43.0


From 82d3643c2fb661711ed2c061e605ac9d741b22f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:09:03 +0000
Subject: [PATCH 25/57] fix: vector integer comparisons are unsigned

---
 CEX/UInt128.h   | 7 +++++--
 CEX/UInt256.h   | 7 +++++--
 CEX/ULong256.h  | 7 +++++--
 CEX/UShort128.h | 7 +++++--
 4 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/CEX/UInt128.h b/CEX/UInt128.h
index ffbeaf4..cc06015 100644
--- a/CEX/UInt128.h
+++ b/CEX/UInt128.h
@@ -657,7 +657,10 @@ public:
 	/// <param name="X">The values to compare</param>
 	inline UInt128 operator > (UInt128 const &X) const
 	{
-		return UInt128(_mm_cmpgt_epi32(xmm, X.xmm));
+		// the compare instruction is signed: move the unsigned range onto the signed one
+		const __m128i SGNB = _mm_set1_epi32(static_cast<int32_t>(0x80000000UL));
+
+		return UInt128(_mm_cmpgt_epi32(_mm_xor_si128(xmm, SGNB), _mm_xor_si128(X.xmm, SGNB)));
 	}
 
 	/// <summary>
@@ -667,7 +670,7 @@ public:
 	/// <param name="X">The values to compare</param>
 	inline UInt128 operator < (UInt128 const &X) const
 	{
-		return UInt128(_mm_cmplt_epi32(xmm, X.xmm));
+		return X > UInt128(xmm);
 	}
 
 	/// <summary>
diff --git a/CEX/UInt256.h b/CEX/UInt256.h
index 34f37ef..9eb2ebe 100644
--- a/CEX/UInt256.h
+++ b/CEX/UInt256.h
@@ -720,7 +720,10 @@ public:
 	/// <param name="X">The values to compare</param>
 	inline UInt256 operator > (UInt256 const &X) const
 	{
-		return UInt256(_mm256_cmpgt_epi32(ymm, X.ymm));
+		// the compare instruction is signed: move the unsigned range onto the signed one
+		const __m256i SGNB = _mm256_set1_epi32(static_cast<int32_t>(0x80000000UL));
+
+		return UInt256(_mm256_cmpgt_epi32(_mm256_xor_si256(ymm, SGNB), _mm256_xor_si256(X.ymm, SGNB)));
 	}
 
 	/// <summary>
@@ -730,7 +733,7 @@ public:
 	/// <param name="X">The values to compare</param>
 	inline UInt256 operator < (UInt256 const &X) const
 	{
-		return UInt256(_mm256_cmpgt_epi32(X.ymm, ymm));
+		return X > UInt256(ymm);
 	}
 
 	/// <summary>
diff --git a/CEX/ULong256.h b/CEX/ULong256.h
index a42ad65..e2cfa90 100644
--- a/CEX/ULong256.h
+++ b/CEX/ULong256.h
@@ -612,7 +612,10 @@ public:
 	/// <param name="X">The values to compare</param>
 	inline ULong256 operator > (ULong256 const &X) const
 	{
-		return ULong256(_mm256_cmpgt_epi64(ymm, X.ymm));
+		// the compare instruction is signed: move the unsigned range onto the signed one
+		const __m256i SGNB = _mm256_set1_epi64x(static_cast<int64_t>(0x8000000000000000ULL));
+
+		return ULong256(_mm256_cmpgt_epi64(_mm256_xor_si256(ymm, SGNB), _mm256_xor_si256(X.ymm, SGNB)));
 	}
 
 	/// <summary>
@@ -622,7 +625,7 @@ public:
 	/// <param name="X">The values to compare</param>
 	inline ULong256 operator < (ULong256 const &X) const
 	{
-		return ULong256(_mm256_cmpgt_epi64(X.ymm, ymm));
+		return X > ULong256(ymm);
 	}
 
 	/// <summary>
diff --git a/CEX/UShort128.h b/CEX/UShort128.h
index b5714ab..e1a89ef 100644
--- a/CEX/UShort128.h
+++ b/CEX/UShort128.h
@@ -602,7 +602,10 @@ public:
 	/// <param name="X">The values to compare</param>
 	inline UShort128 operator > (UShort128 const &X) const
 	{
-		return UShort128(_mm_cmpgt_epi16(xmm, X.xmm));
+		// the compare instruction is signed: move the unsigned range onto the signed one
+		const __m128i SGNB = _mm_set1_epi16(static_cast<int16_t>(0x8000));
+
+		return UShort128(_mm_cmpgt_epi16(_mm_xor_si128(xmm, SGNB), _mm_xor_si128(X.xmm, SGNB)));
 	}
 
 	/// <summary>
@@ -612,7 +615,7 @@ public:
 	/// <param name="X">The values to compare</param>
 	inline UShort128 operator < (UShort128 const &X) const
 	{
-		return UShort128(_mm_cmplt_epi16(xmm, X.xmm));
+		return X > UShort128(xmm);
 	}
 
 	/// <summary>
-- 
2.43.0


From 935969fb7ccbdb3b3305c4a68d0207d085f0ba03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:09:04 +0000
Subject: [PATCH 26/57] fix: vector integer shift counts occupy the low
 quadword only

---
 CEX/UInt128.h | 4 ++--
 CEX/UInt256.h | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/CEX/UInt128.h b/CEX/UInt128.h
index cc06015..bf2c2bf 100644
--- a/CEX/UInt128.h
+++ b/CEX/UInt128.h
@@ -323,7 +323,7 @@ public:
 	inline static UInt128 ShiftRA(const UInt128 &Value, const int32_t Shift)
 	{
 		CEXASSERT(Shift <= 32, "Shift size is too large");
-		return UInt128(_mm_sra_epi32(Value, _mm_set1_epi32(Shift)));
+		return UInt128(_mm_sra_epi32(Value.xmm, _mm_cvtsi32_si128(Shift)));
 	}
 
 	/// <summary>
@@ -337,7 +337,7 @@ public:
 	inline static UInt128 ShiftRL(const UInt128 &Value, const int32_t Shift)
 	{
 		CEXASSERT(Shift <= 32, "Shift size is too large");
-		return UInt128(_mm_srl_epi32(Value, _mm_set1_epi32(Shift)));
+		return UInt128(_mm_srl_epi32(Value.xmm, _mm_cvtsi32_si128(Shift)));
 	}
 
 	/// <summary>
diff --git a/CEX/UInt256.h b/CEX/UInt256.h
index 9eb2ebe..c197196 100644
--- a/CEX/UInt256.h
+++ b/CEX/UInt256.h
@@ -342,7 +342,7 @@ public:
 	inline static UInt256 ShiftRA(const UInt256 &Value, const int32_t Shift)
 	{
 		CEXASSERT(Shift <= 32, "Shift size is too large");
-		return UInt256(_mm256_sra_epi32(Value, _mm_set1_epi32(Shift)));
+		return UInt256(_mm256_sra_epi32(Value.ymm, _mm_cvtsi32_si128(Shift)));
 	}
 
 	/// <summary>
@@ -356,7 +356,7 @@ public:
 	inline static UInt256 ShiftRL(const UInt256 &Value, const int32_t Shift)
 	{
 		CEXASSERT(Shift <= 32, "Shift size is too large");
-		return UInt256(_mm256_srl_epi32(Value, _mm_set1_epi32(Shift)));
+		return UInt256(_mm256_srl_epi32(Value.ymm, _mm_cvtsi32_si128(Shift)));
 	}
 
 	/// <summary>
-- 
2.43.0


From 56b5492919dd15ad8397a8d54a10d0adb69309b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:09:04 +0000
Subject: [PATCH 27/57] fix: ULong256 multiplies 64-bit lanes

---
 CEX/ULong256.h | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/CEX/ULong256.h b/CEX/ULong256.h
index e2cfa90..5c4ab35 100644
--- a/CEX/ULong256.h
+++ b/CEX/ULong256.h
@@ -403,9 +403,10 @@ public:
 #if defined (__AVX512DQ__) && defined (__AVX512VL__)
 		ymm = _mm256_mullo_epi64(ymm, X.ymm);
 #else
-		__m256i tmp1 = _mm256_mul_epu32(ymm, X.ymm);
-		__m256i tmp2 = _mm256_mul_epu32(_mm256_srli_si256(ymm, 4), _mm256_srli_si256(X.ymm, 4));
-		ymm = _mm256_unpacklo_epi32(_mm256_shuffle_epi32(tmp1, _MM_SHUFFLE(0, 0, 2, 0)), _mm256_shuffle_epi32(tmp2, _MM_SHUFFLE(0, 0, 2, 0)));
+		// the low 64 bits of each product: lo*lo + ((hi*lo + lo*hi) << 32)
+		const __m256i TMPL = _mm256_mul_epu32(ymm, X.ymm);
+		const __m256i TMPH = _mm256_add_epi64(_mm256_mul_epu32(_mm256_srli_epi64(ymm, 32), X.ymm), _mm256_mul_epu32(ymm, _mm256_srli_epi64(X.ymm, 32)));
+		ymm = _mm256_add_epi64(TMPL, _mm256_slli_epi64(TMPH, 32));
 #endif
 	}
 
@@ -419,9 +420,10 @@ public:
 #if defined (__AVX512DQ__) && defined (__AVX512VL__)
 		return ULong256(_mm256_mullo_epi64(ymm, X.ymm));
 #else
-		__m256i tmp1 = _mm256_mul_epu32(ymm, X.ymm);
-		__m256i tmp2 = _mm256_mul_epu32(_mm256_srli_si256(ymm, 4), _mm256_srli_si256(X.ymm, 4));
-		return ULong256(_mm256_unpacklo_epi32(_mm256_shuffle_epi32(tmp1, _MM_SHUFFLE(0, 0, 2, 0)), _mm256_shuffle_epi32(tmp2, _MM_SHUFFLE(0, 0, 2, 0))));
+		// the low 64 bits of each product: lo*lo + ((hi*lo + lo*hi) << 32)
+		const __m256i TMPL = _mm256_mul_epu32(ymm, X.ymm);
+		const __m256i TMPH = _mm256_add_epi64(_mm256_mul_epu32(_mm256_srli_epi64(ymm, 32), X.ymm), _mm256_mul_epu32(ymm, _mm256_srli_epi64(X.ymm, 32)));
+		return ULong256(_mm256_add_epi64(TMPL, _mm256_slli_epi64(TMPH, 32)));
 #endif
 	}
 
-- 
2.43.0


From b636ce828fe4f60878690713c148a864fff67097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:09:04 +0000
Subject: [PATCH 28/57] fix: Swap reverses the bytes of one lane

---
 CEX/ULong256.h  | 8 ++++----
 CEX/UShort128.h | 6 ------
 2 files changed, 4 insertions(+), 10 deletions(-)

diff --git a/CEX/ULong256.h b/CEX/ULong256.h
index 5c4ab35..630621e 100644
--- a/CEX/ULong256.h
+++ b/CEX/ULong256.h
@@ -305,8 +305,8 @@ public:
 	{
 		__m256i tmpX = ymm;
 
-		tmpX = _mm256_shufflehi_epi16(tmpX, _MM_SHUFFLE(2, 3, 0, 1));
-		tmpX = _mm256_shufflelo_epi16(tmpX, _MM_SHUFFLE(2, 3, 0, 1));
+		tmpX = _mm256_shufflehi_epi16(tmpX, _MM_SHUFFLE(0, 1, 2, 3));
+		tmpX = _mm256_shufflelo_epi16(tmpX, _MM_SHUFFLE(0, 1, 2, 3));
 
 		return ULong256(_mm256_or_si256(_mm256_srli_epi16(tmpX, 8), _mm256_slli_epi16(tmpX, 8)));
 	}
@@ -322,8 +322,8 @@ public:
 	{
 		__m256i tmpX = X.ymm;
 
-		tmpX = _mm256_shufflehi_epi16(tmpX, _MM_SHUFFLE(2, 3, 0, 1));
-		tmpX = _mm256_shufflelo_epi16(tmpX, _MM_SHUFFLE(2, 3, 0, 1));
+		tmpX = _mm256_shufflehi_epi16(tmpX, _MM_SHUFFLE(0, 1, 2, 3));
+		tmpX = _mm256_shufflelo_epi16(tmpX, _MM_SHUFFLE(0, 1, 2, 3));
 
 		return ULong256(_mm256_or_si256(_mm256_srli_epi16(tmpX, 8), _mm256_slli_epi16(tmpX, 8)));
 	}
diff --git a/CEX/UShort128.h b/CEX/UShort128.h
index e1a89ef..865a8ef 100644
--- a/CEX/UShort128.h
+++ b/CEX/UShort128.h
@@ -274,9 +274,6 @@ public:
 	{
 		__m128i tmpX = xmm;
 
-		tmpX = _mm_shufflehi_epi16(tmpX, _MM_SHUFFLE(2, 3, 0, 1)); // ?
-		tmpX = _mm_shufflelo_epi16(tmpX, _MM_SHUFFLE(2, 3, 0, 1));
-
 		return UShort128(_mm_or_si128(_mm_srli_epi16(tmpX, 8), _mm_slli_epi16(tmpX, 8)));
 	}
 
@@ -291,9 +288,6 @@ public:
 	{
 		__m128i tmpX = X.xmm;
 
-		tmpX = _mm_shufflehi_epi16(tmpX, _MM_SHUFFLE(2, 3, 0, 1));
-		tmpX = _mm_shufflelo_epi16(tmpX, _MM_SHUFFLE(2, 3, 0, 1));
-
 		return UShort128(_mm_or_si128(_mm_srli_epi16(tmpX, 8), _mm_slli_epi16(tmpX, 8)));
 	}
 
-- 
2.43.0


From 909d90b994f880acae8a76fcb61a566977c98a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:38:04 +0000
Subject: [PATCH 29/57] fix: CSR and HCR generate the requested length, not the
 array size

---
 CEX/CSR.cpp | 2 +-
 CEX/HCR.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/CEX/CSR.cpp b/CEX/CSR.cpp
index 4386154..66854fa 100644
--- a/CEX/CSR.cpp
+++ b/CEX/CSR.cpp
@@ -88,7 +88,7 @@ void CSR::Generate(std::vector<uint8_t> &Output, size_t Offset, size_t Length)
 
 	SecureVector<uint8_t> tmp(Length);
 
-	Generate(tmp, 0, Output.size(), m_rngGenerator);
+	Generate(tmp, 0, Length, m_rngGenerator);
 	SecureMove(tmp, 0, Output, Offset, tmp.size());
 }
 
diff --git a/CEX/HCR.cpp b/CEX/HCR.cpp
index 16375ba..c80a3f7 100644
--- a/CEX/HCR.cpp
+++ b/CEX/HCR.cpp
@@ -91,7 +91,7 @@ void HCR::Generate(std::vector<uint8_t> &Output, size_t Offset, size_t Length)
 
 	SecureVector<uint8_t> tmp(Length);
 
-	Generate(tmp, 0, Output.size(), m_rngGenerator);
+	Generate(tmp, 0, Length, m_rngGenerator);
 	SecureMove(tmp, 0, Output, Offset, tmp.size());
 }
 
-- 
2.43.0


From 2fcf5bd8cab3af14fa6114b9d44d66a6f7c38b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:38:04 +0000
Subject: [PATCH 30/57] fix: SecureRandom ranges wider than the signed maximum

---
 CEX/SecureRandom.cpp | 89 +++++++++++++++++++++++++++++++++-----------
 1 file changed, 67 insertions(+), 22 deletions(-)

diff --git a/CEX/SecureRandom.cpp b/CEX/SecureRandom.cpp
index 6c0e03c..08a83c0 100644
--- a/CEX/SecureRandom.cpp
+++ b/CEX/SecureRandom.cpp
@@ -264,19 +264,27 @@ int16_t SecureRandom::NextInt16(int16_t Maximum, int16_t Minimum)
 		throw CryptoRandomException(Name(), std::string("NextInt16"), std::string("Maximum can not be less than Minimum!"), ErrorCodes::IllegalOperation);
 	}
 
-	const int16_t SMPTHR = (Maximum - Minimum + 1);
-	const int16_t SMPMAX = static_cast<int16_t>(std::numeric_limits<int16_t>::max() - (std::numeric_limits<int16_t>::max() % SMPTHR));
-	int16_t x;
-	int16_t ret;
+	// the span of a signed range can exceed the signed type, it is drawn as an unsigned value
+	const uint16_t SMPTHR = static_cast<uint16_t>(static_cast<uint16_t>(Maximum) - static_cast<uint16_t>(Minimum) + 1);
+
+	// the range spans every value
+	if (SMPTHR == 0)
+	{
+		return NextInt16();
+	}
+
+	const uint16_t SMPMAX = static_cast<uint16_t>(std::numeric_limits<uint16_t>::max() - (std::numeric_limits<uint16_t>::max() % SMPTHR));
+	uint16_t x;
+	uint16_t ret;
 
 	do
 	{
-		x = NextInt16();
+		x = NextUInt16();
 		ret = x % SMPTHR;
 	}
-	while (x >= SMPMAX || ret < 0);
+	while (x >= SMPMAX);
 
-	return Minimum + ret;
+	return static_cast<int16_t>(static_cast<uint16_t>(Minimum) + ret);
 }
 
 uint16_t SecureRandom::NextUInt16()
@@ -320,6 +328,13 @@ uint16_t SecureRandom::NextUInt16(uint16_t Maximum, uint16_t Minimum)
 	}
 
 	const uint16_t SMPTHR = (Maximum - Minimum + 1);
+
+	// the range spans every value
+	if (SMPTHR == 0)
+	{
+		return NextUInt16();
+	}
+
 	const uint16_t SMPMAX = static_cast<uint16_t>(std::numeric_limits<uint16_t>::max() - (std::numeric_limits<uint16_t>::max() % SMPTHR));
 	uint16_t x;
 	uint16_t ret;
@@ -374,19 +389,27 @@ int32_t SecureRandom::NextInt32(int32_t Maximum, int32_t Minimum)
 		throw CryptoRandomException(Name(), std::string("NextInt32"), std::string("Maximum can not be less than Minimum!"), ErrorCodes::IllegalOperation);
 	}
 
-	const int32_t SMPTHR = (Maximum - Minimum + 1);
-	const int32_t SMPMAX = static_cast<int32_t>(std::numeric_limits<int32_t>::max() - (std::numeric_limits<int32_t>::max() % SMPTHR));
-	int32_t x;
-	int32_t ret;
+	// the span of a signed range can exceed the signed type, it is drawn as an unsigned value
+	const uint32_t SMPTHR = static_cast<uint32_t>(static_cast<uint32_t>(Maximum) - static_cast<uint32_t>(Minimum) + 1);
+
+	// the range spans every value
+	if (SMPTHR == 0)
+	{
+		return NextInt32();
+	}
+
+	const uint32_t SMPMAX = static_cast<uint32_t>(std::numeric_limits<uint32_t>::max() - (std::numeric_limits<uint32_t>::max() % SMPTHR));
+	uint32_t x;
+	uint32_t ret;
 
 	do
 	{
-		x = NextInt32();
+		x = NextUInt32();
 		ret = x % SMPTHR;
-	} 
-	while (x >= SMPMAX || ret < 0);
+	}
+	while (x >= SMPMAX);
 
-	return Minimum + ret;
+	return static_cast<int32_t>(static_cast<uint32_t>(Minimum) + ret);
 }
 
 uint32_t SecureRandom::NextUInt32()
@@ -430,6 +453,13 @@ uint32_t SecureRandom::NextUInt32(uint32_t Maximum, uint32_t Minimum)
 	}
 
 	const uint32_t SMPTHR = (Maximum - Minimum + 1);
+
+	// the range spans every value
+	if (SMPTHR == 0)
+	{
+		return NextUInt32();
+	}
+
 	const uint32_t SMPMAX = static_cast<uint32_t>(std::numeric_limits<uint32_t>::max() - (std::numeric_limits<uint32_t>::max() % SMPTHR));
 	uint32_t x;
 	uint32_t ret;
@@ -484,19 +514,27 @@ int64_t SecureRandom::NextInt64(int64_t Maximum, int64_t Minimum)
 		throw CryptoRandomException(Name(), std::string("NextInt64"), std::string("Maximum can not be less than Minimum!"), ErrorCodes::IllegalOperation);
 	}
 
-	const int64_t SMPTHR = (Maximum - Minimum + 1);
-	const int64_t SMPMAX = static_cast<int64_t>(std::numeric_limits<int64_t>::max() - (std::numeric_limits<int64_t>::max() % SMPTHR));
-	int64_t x;
-	int64_t ret;
+	// the span of a signed range can exceed the signed type, it is drawn as an unsigned value
+	const uint64_t SMPTHR = static_cast<uint64_t>(static_cast<uint64_t>(Maximum) - static_cast<uint64_t>(Minimum) + 1);
+
+	// the range spans every value
+	if (SMPTHR == 0)
+	{
+		return NextInt64();
+	}
+
+	const uint64_t SMPMAX = static_cast<uint64_t>(std::numeric_limits<uint64_t>::max() - (std::numeric_limits<uint64_t>::max() % SMPTHR));
+	uint64_t x;
+	uint64_t ret;
 
 	do
 	{
-		x = NextInt64();
+		x = NextUInt64();
 		ret = x % SMPTHR;
 	}
-	while (x >= SMPMAX || ret < 0);
+	while (x >= SMPMAX);
 
-	return Minimum + ret;
+	return static_cast<int64_t>(static_cast<uint64_t>(Minimum) + ret);
 }
 
 uint64_t SecureRandom::NextUInt64()
@@ -540,6 +578,13 @@ uint64_t SecureRandom::NextUInt64(uint64_t Maximum, uint64_t Minimum)
 	}
 
 	const uint64_t SMPTHR = (Maximum - Minimum + 1);
+
+	// the range spans every value
+	if (SMPTHR == 0)
+	{
+		return NextUInt64();
+	}
+
 	const uint64_t SMPMAX = (std::numeric_limits<uint64_t>::max() - (std::numeric_limits<uint64_t>::max() % SMPTHR));
 	uint64_t x;
 	uint64_t ret;
-- 
2.43.0


From 97862f1f8f608f6a978c23280207f88f67803e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:23:30 +0000
Subject: [PATCH 31/57] fix: name every asymmetric parameter set and map
 XMSSSHA2256H10 back to itself

---
 CEX/AsymmetricParameters.cpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/CEX/AsymmetricParameters.cpp b/CEX/AsymmetricParameters.cpp
index 265801a..a28bd9f 100644
--- a/CEX/AsymmetricParameters.cpp
+++ b/CEX/AsymmetricParameters.cpp
@@ -29,6 +29,9 @@ std::string AsymmetricTransformConvert::ToName(AsymmetricParameters Enumeral)
 	case AsymmetricParameters::ECDSAS2P25519S:
 		name = std::string("ECDSAS2P25519S");
 		break;
+	case AsymmetricParameters::KYBERS1P1632:
+		name = std::string("KYBERS1P1632");
+		break;
 	case AsymmetricParameters::KYBERS3P2400:
 		name = std::string("KYBERS3P2400");
 		break;
@@ -59,6 +62,9 @@ std::string AsymmetricTransformConvert::ToName(AsymmetricParameters Enumeral)
 	case AsymmetricParameters::SPXPS5S256SHAKE:
 		name = std::string("SPXPS5S256SHAKE");
 		break;
+	case AsymmetricParameters::SPXPS6S512SHAKE:
+		name = std::string("SPXPS6S512SHAKE");
+		break;
 	case AsymmetricParameters::XMSSSHA2256H10:
 		name = std::string("XMSSSHA2256H10");
 		break;
@@ -231,6 +237,10 @@ AsymmetricParameters AsymmetricTransformConvert::FromName(std::string &Name)
 	{
 		tname = AsymmetricParameters::ECDSAS2P25519S;
 	}
+	else if (Name == std::string("KYBERS1P1632"))
+	{
+		tname = AsymmetricParameters::KYBERS1P1632;
+	}
 	else if (Name == std::string("KYBERS3P2400"))
 	{
 		tname = AsymmetricParameters::KYBERS3P2400;
@@ -271,9 +281,13 @@ AsymmetricParameters AsymmetricTransformConvert::FromName(std::string &Name)
 	{
 		tname = AsymmetricParameters::SPXPS5S256SHAKE;
 	}
+	else if (Name == std::string("SPXPS6S512SHAKE"))
+	{
+		tname = AsymmetricParameters::SPXPS6S512SHAKE;
+	}
 	else if (Name == std::string("XMSSSHA2256H10"))
 	{
-		tname = AsymmetricParameters::XMSSSHA2256H16;
+		tname = AsymmetricParameters::XMSSSHA2256H10;
 	}
 	else if (Name == std::string("XMSSSHA2256H16"))
 	{
-- 
2.43.0


From 74f1dedfd36f06e7a19f652dffc903f20a1d68b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:23:30 +0000
Subject: [PATCH 32/57] fix: give CryptoKmsException a name

---
 CEX/ExceptionTypes.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/CEX/ExceptionTypes.cpp b/CEX/ExceptionTypes.cpp
index 086dca2..c925318 100644
--- a/CEX/ExceptionTypes.cpp
+++ b/CEX/ExceptionTypes.cpp
@@ -29,6 +29,9 @@ std::string ExceptionTypeConvert::ToName(ExceptionTypes Enumeral)
 	case ExceptionTypes::CryptoKdfException:
 		name = std::string("CryptoKdfException");
 		break;
+	case ExceptionTypes::CryptoKmsException:
+		name = std::string("CryptoKmsException");
+		break;
 	case ExceptionTypes::CryptoMacException:
 		name = std::string("CryptoMacException");
 		break;
@@ -84,6 +87,10 @@ ExceptionTypes ExceptionTypeConvert::FromName(std::string &Name)
 	{
 		tname = ExceptionTypes::CryptoKdfException;
 	}
+	else if (Name == std::string("CryptoKmsException"))
+	{
+		tname = ExceptionTypes::CryptoKmsException;
+	}
 	else if (Name == std::string("CryptoMacException"))
 	{
 		tname = ExceptionTypes::CryptoMacException;
-- 
2.43.0


From 5e3046265983718ca92760ca70f7d4e05f099fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:23:30 +0000
Subject: [PATCH 33/57] fix: give the HKDS and SHAKE key derivation functions
 their names

---
 CEX/Kdfs.cpp | 42 ++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 42 insertions(+)

diff --git a/CEX/Kdfs.cpp b/CEX/Kdfs.cpp
index 4f8b3c7..f4d9a1d 100644
--- a/CEX/Kdfs.cpp
+++ b/CEX/Kdfs.cpp
@@ -38,6 +38,24 @@ std::string KdfConvert::ToName(Kdfs Enumeral)
 		case Kdfs::SCBKDF1024:
 			name = std::string("SCBKDF1024");
 			break;
+		case Kdfs::HKDS128:
+			name = std::string("HKDS128");
+			break;
+		case Kdfs::HKDS256:
+			name = std::string("HKDS256");
+			break;
+		case Kdfs::HKDS512:
+			name = std::string("HKDS512");
+			break;
+		case Kdfs::SHAKE128:
+			name = std::string("SHAKE128");
+			break;
+		case Kdfs::SHAKE256:
+			name = std::string("SHAKE256");
+			break;
+		case Kdfs::SHAKE512:
+			name = std::string("SHAKE512");
+			break;
 		default:
 			name = std::string("None");
 			break;
@@ -90,6 +108,30 @@ Kdfs KdfConvert::FromName(std::string &Name)
 	{
 		tname = Kdfs::SCBKDF1024;
 	}
+	else if (Name == std::string("HKDS128"))
+	{
+		tname = Kdfs::HKDS128;
+	}
+	else if (Name == std::string("HKDS256"))
+	{
+		tname = Kdfs::HKDS256;
+	}
+	else if (Name == std::string("HKDS512"))
+	{
+		tname = Kdfs::HKDS512;
+	}
+	else if (Name == std::string("SHAKE128"))
+	{
+		tname = Kdfs::SHAKE128;
+	}
+	else if (Name == std::string("SHAKE256"))
+	{
+		tname = Kdfs::SHAKE256;
+	}
+	else if (Name == std::string("SHAKE512"))
+	{
+		tname = Kdfs::SHAKE512;
+	}
 	else
 	{
 		tname = Kdfs::None;
-- 
2.43.0


From 9d3a2093130d8a49bc5a886b977dd5cbc872a726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:23:30 +0000
Subject: [PATCH 34/57] fix: the AES and TSXR96K512 cipher names lead back to
 their members

---
 CEX/SymmetricCiphers.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/CEX/SymmetricCiphers.cpp b/CEX/SymmetricCiphers.cpp
index ad9e278..3abc3ef 100644
--- a/CEX/SymmetricCiphers.cpp
+++ b/CEX/SymmetricCiphers.cpp
@@ -83,6 +83,9 @@ std::string SymmetricCipherConvert::ToName(SymmetricCiphers Enumeral)
 		case SymmetricCiphers::TSX512:
 			name = std::string("TSX512");
 			break;
+		case SymmetricCiphers::TSXR96K512:
+			name = std::string("TSXR96K512");
+			break;
 		case SymmetricCiphers::TSX1024:
 			name = std::string("TSX1024");
 			break;
@@ -101,7 +104,7 @@ SymmetricCiphers SymmetricCipherConvert::FromName(std::string &Name)
 {
 	SymmetricCiphers tname;
 
-	if (Name == std::string("Rijndael"))
+	if (Name == std::string("AES") || Name == std::string("Rijndael"))
 	{
 		tname = SymmetricCiphers::AES;
 	}
-- 
2.43.0


From 3eaf5721725dce7998dcfa49299f89f78b012406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:23:30 +0000
Subject: [PATCH 35/57] fix: compare digest parameter blocks by value and not
 by additive hash

---
 CEX/BlakeParams.cpp  | 11 ++++++++++-
 CEX/KeccakParams.cpp |  9 +--------
 CEX/SHA2Params.cpp   |  9 +--------
 CEX/SkeinParams.cpp  | 11 ++++++++++-
 4 files changed, 22 insertions(+), 18 deletions(-)

diff --git a/CEX/BlakeParams.cpp b/CEX/BlakeParams.cpp
index 67ab6d7..7ab404c 100644
--- a/CEX/BlakeParams.cpp
+++ b/CEX/BlakeParams.cpp
@@ -164,7 +164,16 @@ BlakeParams* BlakeParams::DeepCopy()
 
 bool BlakeParams::Equals(BlakeParams &Input)
 {
-	return (GetHashCode() == Input.GetHashCode());
+	return (m_outputSize == Input.m_outputSize &&
+		m_keyLen == Input.m_keyLen &&
+		m_fanOut == Input.m_fanOut &&
+		m_maxDepth == Input.m_maxDepth &&
+		m_leafSize == Input.m_leafSize &&
+		m_nodeOffset == Input.m_nodeOffset &&
+		m_nodeDepth == Input.m_nodeDepth &&
+		m_innerLen == Input.m_innerLen &&
+		m_reserved == Input.m_reserved &&
+		m_dstCode == Input.m_dstCode);
 }
 
 int32_t BlakeParams::GetHashCode()
diff --git a/CEX/KeccakParams.cpp b/CEX/KeccakParams.cpp
index 69d305e..bb722ab 100644
--- a/CEX/KeccakParams.cpp
+++ b/CEX/KeccakParams.cpp
@@ -151,14 +151,7 @@ KeccakParams* KeccakParams::DeepCopy()
 
 bool KeccakParams::Equals(KeccakParams &Input)
 {
-	bool res(true);
-
-	if (this->GetHashCode() != Input.GetHashCode())
-	{
-		res = false;
-	}
-
-	return res;
+	return (ToBytes() == Input.ToBytes());
 }
 
 int32_t KeccakParams::GetHashCode()
diff --git a/CEX/SHA2Params.cpp b/CEX/SHA2Params.cpp
index 6d0649d..0a7d747 100644
--- a/CEX/SHA2Params.cpp
+++ b/CEX/SHA2Params.cpp
@@ -160,14 +160,7 @@ SHA2Params* SHA2Params::DeepCopy()
 
 bool SHA2Params::Equals(SHA2Params &Input)
 {
-	bool res(true);
-
-	if (this->GetHashCode() != Input.GetHashCode())
-	{
-		res = false;
-	}
-
-	return res;
+	return (ToBytes() == Input.ToBytes());
 }
 
 int32_t SHA2Params::GetHashCode()
diff --git a/CEX/SkeinParams.cpp b/CEX/SkeinParams.cpp
index 5b6aeb9..86a011f 100644
--- a/CEX/SkeinParams.cpp
+++ b/CEX/SkeinParams.cpp
@@ -197,7 +197,16 @@ SkeinParams* SkeinParams::DeepCopy()
 
 bool SkeinParams::Equals(SkeinParams &Input)
 {
-	return (this->GetHashCode() == Input.GetHashCode());
+	return (m_treeSchema == Input.m_treeSchema &&
+		m_treeVersion == Input.m_treeVersion &&
+		m_reserved1 == Input.m_reserved1 &&
+		m_outputSize == Input.m_outputSize &&
+		m_leafSize == Input.m_leafSize &&
+		m_treeDepth == Input.m_treeDepth &&
+		m_treeFanout == Input.m_treeFanout &&
+		m_reserved2 == Input.m_reserved2 &&
+		m_reserved3 == Input.m_reserved3 &&
+		m_dstCode == Input.m_dstCode);
 }
 
 int32_t SkeinParams::GetHashCode()
-- 
2.43.0


From 0385e075b3beccc7f400baa16262e4455e13d10f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:23:30 +0000
Subject: [PATCH 36/57] fix: stream reads never return more bytes than
 requested

---
 CEX/MemoryStream.cpp | 6 ++++--
 CEX/SecureStream.cpp | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/CEX/MemoryStream.cpp b/CEX/MemoryStream.cpp
index 55fd66f..bd0571d 100644
--- a/CEX/MemoryStream.cpp
+++ b/CEX/MemoryStream.cpp
@@ -127,9 +127,11 @@ void MemoryStream::Destroy()
 
 size_t MemoryStream::Read(std::vector<uint8_t> &Output, size_t Offset, size_t Length)
 {
-	if (Offset + Length > m_streamData.size() - m_streamPosition)
+	const size_t RMDLEN = (m_streamPosition < m_streamData.size()) ? static_cast<size_t>(m_streamData.size() - m_streamPosition) : 0;
+
+	if (Length > RMDLEN)
 	{
-		Length = m_streamData.size() - m_streamPosition;
+		Length = RMDLEN;
 	}
 
 	if (Length > 0)
diff --git a/CEX/SecureStream.cpp b/CEX/SecureStream.cpp
index bf21f8f..ef973b8 100644
--- a/CEX/SecureStream.cpp
+++ b/CEX/SecureStream.cpp
@@ -147,9 +147,11 @@ void SecureStream::Destroy()
 
 size_t SecureStream::Read(std::vector<uint8_t> &Output, size_t Offset, size_t Length)
 {
-	if (Offset + Length > m_streamData.size() - m_streamPosition)
+	const size_t RMDLEN = (m_streamPosition < m_streamData.size()) ? static_cast<size_t>(m_streamData.size() - m_streamPosition) : 0;
+
+	if (Length > RMDLEN)
 	{
-		Length = m_streamData.size() - m_streamPosition;
+		Length = RMDLEN;
 	}
 
 	if (Length > 0)
-- 
2.43.0


From e841e4ee0a320cb307e1d19b0e5ba04e872e95c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:23:30 +0000
Subject: [PATCH 37/57] fix: do not size the secure stream salt vector by the
 value of the salt

---
 CEX/SecureStream.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/CEX/SecureStream.cpp b/CEX/SecureStream.cpp
index ef973b8..3f60a2d 100644
--- a/CEX/SecureStream.cpp
+++ b/CEX/SecureStream.cpp
@@ -27,7 +27,7 @@ SecureStream::SecureStream()
 SecureStream::SecureStream(size_t Length, uint64_t KeySalt)
 	:
 	m_isDestroyed(false),
-	m_keySalt(KeySalt),
+	m_keySalt(0),
 	m_streamData(0),
 	m_streamPosition(0)
 {
@@ -43,7 +43,7 @@ SecureStream::SecureStream(size_t Length, uint64_t KeySalt)
 SecureStream::SecureStream(const std::vector<uint8_t> &Data, uint64_t KeySalt)
 	:
 	m_isDestroyed(false),
-	m_keySalt(KeySalt),
+	m_keySalt(0),
 	m_streamData(Data),
 	m_streamPosition(0)
 {
@@ -59,7 +59,7 @@ SecureStream::SecureStream(const std::vector<uint8_t> &Data, uint64_t KeySalt)
 SecureStream::SecureStream(std::vector<uint8_t> &Data, size_t Offset, size_t Length, uint64_t KeySalt)
 	:
 	m_isDestroyed(false),
-	m_keySalt(KeySalt),
+	m_keySalt(0),
 	m_streamData(0),
 	m_streamPosition(0)
 {
-- 
2.43.0


From 9cc4f51c9ba431275217518e82fa6e50796663c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:23:30 +0000
Subject: [PATCH 38/57] fix: SetLength sets the length of memory and secure
 streams

---
 CEX/MemoryStream.cpp | 2 +-
 CEX/SecureStream.cpp | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/CEX/MemoryStream.cpp b/CEX/MemoryStream.cpp
index bd0571d..528ff98 100644
--- a/CEX/MemoryStream.cpp
+++ b/CEX/MemoryStream.cpp
@@ -178,7 +178,7 @@ void MemoryStream::Seek(uint64_t Offset, SeekOrigin Origin)
 
 void MemoryStream::SetLength(uint64_t Length)
 {
-	m_streamData.reserve(Length);
+	m_streamData.resize(Length);
 }
 
 void MemoryStream::Write(const std::vector<uint8_t> &Input, size_t Offset, size_t Length)
diff --git a/CEX/SecureStream.cpp b/CEX/SecureStream.cpp
index 3f60a2d..395f9b7 100644
--- a/CEX/SecureStream.cpp
+++ b/CEX/SecureStream.cpp
@@ -203,7 +203,9 @@ void SecureStream::Seek(uint64_t Offset, SeekOrigin Origin)
 
 void SecureStream::SetLength(uint64_t Length)
 {
-	m_streamData.reserve(Length);
+	Transform();
+	m_streamData.resize(Length);
+	Transform();
 }
 
 std::vector<uint8_t> SecureStream::ToArray()
-- 
2.43.0


From a33304edb6074082e036c492dc420bf807f7fd94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:23:30 +0000
Subject: [PATCH 39/57] fix: clone secure keys that were created without a salt

---
 CEX/SymmetricSecureKey.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/CEX/SymmetricSecureKey.cpp b/CEX/SymmetricSecureKey.cpp
index 199154b..0842396 100644
--- a/CEX/SymmetricSecureKey.cpp
+++ b/CEX/SymmetricSecureKey.cpp
@@ -395,7 +395,19 @@ const SecureVector<uint8_t> SymmetricSecureKey::SecureIV()
 
 SymmetricSecureKey* SymmetricSecureKey::Clone()
 {
-	return new SymmetricSecureKey(Key(), IV(), Info(), m_secureState->Policy, SecureUnlock(m_secureState->Salt));
+	SymmetricSecureKey* tmpk;
+
+	if (m_secureState->Salt.size() != 0)
+	{
+		tmpk = new SymmetricSecureKey(Key(), IV(), Info(), m_secureState->Policy, SecureUnlock(m_secureState->Salt));
+	}
+	else
+	{
+		// a key created without a salt uses the default security policy
+		tmpk = new SymmetricSecureKey(Key(), IV(), Info());
+	}
+
+	return tmpk;
 }
 
 void SymmetricSecureKey::Reset()
-- 
2.43.0


From 15561a35a5e55cd0fd3946b4de9f845a26763547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:23:30 +0000
Subject: [PATCH 40/57] fix: the authentication tag is not part of the
 polynomial of a secure asymmetric key

---
 CEX/AsymmetricSecureKey.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/CEX/AsymmetricSecureKey.cpp b/CEX/AsymmetricSecureKey.cpp
index 32cf35c..806fc15 100644
--- a/CEX/AsymmetricSecureKey.cpp
+++ b/CEX/AsymmetricSecureKey.cpp
@@ -34,6 +34,7 @@ public:
 
 	SecureVector<uint8_t> Polynomial;
 	SecureVector<uint8_t> Salt;
+	size_t KeyLength;
 	AsymmetricPrimitives Primitive;
 	AsymmetricKeyTypes KeyClass;
 	AsymmetricParameters Parameters;
@@ -43,6 +44,7 @@ public:
 		:
 		Polynomial(0),
 		Salt(0),
+		KeyLength(0),
 		KeyClass(AsymmetricKeyTypes::None),
 		Parameters(AsymmetricParameters::None),
 		Policy(SecurityPolicy::None),
@@ -54,6 +56,7 @@ public:
 		:
 		Polynomial(SecureLock(Coefficients)),
 		Salt(SecureLock(KeySalt)),
+		KeyLength(Coefficients.size()),
 		KeyClass(KeyClass),
 		Primitive(PrimitiveType),
 		Parameters(ParameterType),
@@ -65,6 +68,7 @@ public:
 		:
 		Polynomial(Coefficients),
 		Salt(KeySalt),
+		KeyLength(Coefficients.size()),
 		KeyClass(KeyClass),
 		Primitive(PrimitiveType),
 		Parameters(ParameterType),
@@ -81,6 +85,7 @@ public:
 	{
 		SecureClear(Polynomial);
 		SecureClear(Salt);
+		KeyLength = 0;
 		KeyClass = AsymmetricKeyTypes::None;
 		Parameters = AsymmetricParameters::None;
 		Policy = SecurityPolicy::None;
@@ -132,12 +137,12 @@ const AsymmetricParameters AsymmetricSecureKey::Parameters()
 
 const std::vector<uint8_t> AsymmetricSecureKey::Polynomial()
 {
-	SecureVector<uint8_t> tmps(m_secureState->Polynomial.size());
+	SecureVector<uint8_t> tmps(m_secureState->KeyLength);
 
 	// if the state policy has been set to authenticated mode, this will throw on authentication failure
 	try
 	{
-		Extract(m_secureState, tmps, m_secureState->Polynomial.size());
+		Extract(m_secureState, tmps, m_secureState->KeyLength);
 	}
 	catch (CryptoAuthenticationFailure &ex)
 	{
@@ -149,7 +154,7 @@ const std::vector<uint8_t> AsymmetricSecureKey::Polynomial()
 
 const void AsymmetricSecureKey::SecurePolynomial(SecureVector<uint8_t> &Output)
 {
-	if (Output.size() < m_secureState->Polynomial.size())
+	if (Output.size() < m_secureState->KeyLength)
 	{
 		throw CryptoAsymmetricException(CLASS_NAME, std::string("SecurePolynomial"), std::string("The output vector is too small!"), ErrorCodes::InvalidSize);
 	}
@@ -157,7 +162,7 @@ const void AsymmetricSecureKey::SecurePolynomial(SecureVector<uint8_t> &Output)
 	// if the state policy has been set to authenticated mode, this will throw on authentication failure
 	try
 	{
-		Extract(m_secureState, Output, m_secureState->Polynomial.size());
+		Extract(m_secureState, Output, m_secureState->KeyLength);
 	}
 	catch (CryptoAuthenticationFailure &ex)
 	{
-- 
2.43.0


From c7df17f3d00d869fa41fd2ba8d45fca21019c306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:23:30 +0000
Subject: [PATCH 41/57] fix: secure vector output of HKDF, KDF2 and PBKDF2 at
 an offset

---
 CEX/HKDF.cpp   | 2 +-
 CEX/KDF2.cpp   | 2 +-
 CEX/PBKDF2.cpp | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/CEX/HKDF.cpp b/CEX/HKDF.cpp
index f367503..e7b5c30 100644
--- a/CEX/HKDF.cpp
+++ b/CEX/HKDF.cpp
@@ -303,7 +303,7 @@ void HKDF::Expand(std::vector<uint8_t> &Output, size_t OutOffset, size_t Length,
 void HKDF::Expand(SecureVector<uint8_t> &Output, size_t OutOffset, size_t Length, std::unique_ptr<HkdfState> &State, std::unique_ptr<HMAC> &Generator)
 {
 	std::vector<uint8_t> tmps(Length);
-	Expand(tmps, OutOffset, Length, State, Generator);
+	Expand(tmps, 0, Length, State, Generator);
 	SecureMove(tmps, 0, Output, OutOffset, Length);
 }
 
diff --git a/CEX/KDF2.cpp b/CEX/KDF2.cpp
index adb3217..142508e 100644
--- a/CEX/KDF2.cpp
+++ b/CEX/KDF2.cpp
@@ -301,7 +301,7 @@ void KDF2::Expand(std::vector<uint8_t> &Output, size_t OutOffset, size_t Length,
 void KDF2::Expand(SecureVector<uint8_t> &Output, size_t OutOffset, size_t Length, std::unique_ptr<Kdf2State> &State, std::unique_ptr<IDigest> &Generator)
 {
 	std::vector<uint8_t> tmps(Length);
-	Expand(tmps, OutOffset, Length, State, Generator);
+	Expand(tmps, 0, Length, State, Generator);
 	SecureMove(tmps, 0, Output, OutOffset, Length);
 }
 
diff --git a/CEX/PBKDF2.cpp b/CEX/PBKDF2.cpp
index 3f9c73b..fc04976 100644
--- a/CEX/PBKDF2.cpp
+++ b/CEX/PBKDF2.cpp
@@ -294,7 +294,7 @@ void PBKDF2::Expand(std::vector<uint8_t> &Output, size_t OutOffset, size_t Lengt
 void PBKDF2::Expand(SecureVector<uint8_t> &Output, size_t OutOffset, size_t Length, std::unique_ptr<Pbkdf2State> &State, std::unique_ptr<HMAC> &Generator)
 {
 	std::vector<uint8_t> tmps(Length);
-	Expand(tmps, OutOffset, Length, State, Generator);
+	Expand(tmps, 0, Length, State, Generator);
 	SecureMove(tmps, 0, Output, OutOffset, tmps.size());
 }
 
-- 
2.43.0


From 8a5d94a097545d855d84fc8b15384a679eab22b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:23:30 +0000
Subject: [PATCH 42/57] fix: KDF2 and PBKDF2 read the nonce, not nonce and info
 bytes, from the nonce

---
 CEX/KDF2.cpp   | 2 +-
 CEX/PBKDF2.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/CEX/KDF2.cpp b/CEX/KDF2.cpp
index 142508e..772a493 100644
--- a/CEX/KDF2.cpp
+++ b/CEX/KDF2.cpp
@@ -222,7 +222,7 @@ void KDF2::Initialize(ISymmetricKey &Parameters)
 		m_kdf2State->Salt.resize(Parameters.KeySizes().IVSize() + Parameters.KeySizes().InfoSize());
 
 		// add nonce param to salt
-		MemoryTools::Copy(Parameters.IV(), 0, m_kdf2State->Salt, 0, m_kdf2State->Salt.size());
+		MemoryTools::Copy(Parameters.IV(), 0, m_kdf2State->Salt, 0, Parameters.KeySizes().IVSize());
 
 		// add info as extension of salt
 		if (Parameters.KeySizes().InfoSize() > 0)
diff --git a/CEX/PBKDF2.cpp b/CEX/PBKDF2.cpp
index fc04976..ab98233 100644
--- a/CEX/PBKDF2.cpp
+++ b/CEX/PBKDF2.cpp
@@ -234,7 +234,7 @@ void PBKDF2::Initialize(ISymmetricKey &Parameters)
 		// add the nonce param
 		if (Parameters.KeySizes().IVSize() != 0)
 		{
-			MemoryTools::Copy(Parameters.IV(), 0, m_pbkdf2State->Salt, 0, m_pbkdf2State->Salt.size());
+			MemoryTools::Copy(Parameters.IV(), 0, m_pbkdf2State->Salt, 0, Parameters.KeySizes().IVSize());
 		}
 
 		// add info as extension of salt
-- 
2.43.0


From 0b0c2f16bd8a53dbcfad4900294f74bdff2711fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:23:30 +0000
Subject: [PATCH 43/57] fix: a key without salt or info is not mixed with zeros
 of the size of an earlier salt or info

---
 CEX/HKDF.cpp   | 1 +
 CEX/KDF2.cpp   | 1 +
 CEX/PBKDF2.cpp | 1 +
 3 files changed, 3 insertions(+)

diff --git a/CEX/HKDF.cpp b/CEX/HKDF.cpp
index e7b5c30..8e451f5 100644
--- a/CEX/HKDF.cpp
+++ b/CEX/HKDF.cpp
@@ -33,6 +33,7 @@ public:
 	void Reset()
 	{
 		MemoryTools::Clear(Info, 0, Info.size());
+		Info.clear();
 		MemoryTools::Clear(State, 0, State.size());
 		IsDestroyed = false;
 		IsInitialized = false;
diff --git a/CEX/KDF2.cpp b/CEX/KDF2.cpp
index 772a493..f74091d 100644
--- a/CEX/KDF2.cpp
+++ b/CEX/KDF2.cpp
@@ -42,6 +42,7 @@ public:
 		MemoryTools::Clear(Counter, 0, Counter.size() - sizeof(uint8_t));
 		Counter[Counter.size() - sizeof(uint8_t)] = 1;
 		MemoryTools::Clear(Salt, 0, Salt.size());
+		Salt.clear();
 		MemoryTools::Clear(State, 0, State.size());
 		IsInitialized = false;
 	}
diff --git a/CEX/PBKDF2.cpp b/CEX/PBKDF2.cpp
index ab98233..569224b 100644
--- a/CEX/PBKDF2.cpp
+++ b/CEX/PBKDF2.cpp
@@ -46,6 +46,7 @@ public:
 		MemoryTools::Clear(Counter, 0, Counter.size() - sizeof(uint8_t));
 		Counter[Counter.size() - sizeof(uint8_t)] = 1;
 		MemoryTools::Clear(Salt, 0, Salt.size());
+		Salt.clear();
 		MemoryTools::Clear(State, 0, State.size());
 		IsInitialized = false;
 	}
-- 
2.43.0


From 59879dff4411cc5a218fd474191e8dee83227f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:23:30 +0000
Subject: [PATCH 44/57] fix: HKDF counts a last partial block towards its limit
 of 255

---
 CEX/HKDF.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/CEX/HKDF.cpp b/CEX/HKDF.cpp
index 8e451f5..3d73a39 100644
--- a/CEX/HKDF.cpp
+++ b/CEX/HKDF.cpp
@@ -162,7 +162,7 @@ void HKDF::Generate(std::vector<uint8_t> &Output)
 	{
 		throw CryptoKdfException(Name(), std::string("Generate"), std::string("The generator has not been initialized!"), ErrorCodes::NotInitialized);
 	}
-	if (m_hkdfState->State[m_hkdfGenerator->TagSize()] + (Output.size() / m_hkdfGenerator->TagSize()) > MAXGEN_REQUESTS)
+	if (m_hkdfState->State[m_hkdfGenerator->TagSize()] + ((Output.size() + m_hkdfGenerator->TagSize() - 1) / m_hkdfGenerator->TagSize()) > MAXGEN_REQUESTS)
 	{
 		throw CryptoKdfException(Name(), std::string("Generate"), std::string("Request exceeds maximum allowed output!"), ErrorCodes::MaxExceeded);
 	}
@@ -176,7 +176,7 @@ void HKDF::Generate(SecureVector<uint8_t> &Output)
 	{
 		throw CryptoKdfException(Name(), std::string("Generate"), std::string("The generator has not been initialized!"), ErrorCodes::NotInitialized);
 	}
-	if (m_hkdfState->State[m_hkdfGenerator->TagSize()] + (Output.size() / m_hkdfGenerator->TagSize()) > MAXGEN_REQUESTS)
+	if (m_hkdfState->State[m_hkdfGenerator->TagSize()] + ((Output.size() + m_hkdfGenerator->TagSize() - 1) / m_hkdfGenerator->TagSize()) > MAXGEN_REQUESTS)
 	{
 		throw CryptoKdfException(Name(), std::string("Generate"), std::string("Request exceeds maximum allowed output!"), ErrorCodes::MaxExceeded);
 	}
@@ -190,7 +190,7 @@ void HKDF::Generate(std::vector<uint8_t> &Output, size_t OutOffset, size_t Lengt
 	{
 		throw CryptoKdfException(Name(), std::string("Generate"), std::string("The generator has not been initialized!"), ErrorCodes::NotInitialized);
 	}
-	if (m_hkdfState->State[m_hkdfGenerator->TagSize()] + (Length / m_hkdfGenerator->TagSize()) > MAXGEN_REQUESTS)
+	if (m_hkdfState->State[m_hkdfGenerator->TagSize()] + ((Length + m_hkdfGenerator->TagSize() - 1) / m_hkdfGenerator->TagSize()) > MAXGEN_REQUESTS)
 	{
 		throw CryptoKdfException(Name(), std::string("Generate"), std::string("Request exceeds maximum allowed output!"), ErrorCodes::MaxExceeded);
 	}
@@ -208,7 +208,7 @@ void HKDF::Generate(SecureVector<uint8_t> &Output, size_t OutOffset, size_t Leng
 	{
 		throw CryptoKdfException(Name(), std::string("Generate"), std::string("The generator has not been initialized!"), ErrorCodes::NotInitialized);
 	}
-	if (m_hkdfState->State[m_hkdfGenerator->TagSize()] + (Length / m_hkdfGenerator->TagSize()) > MAXGEN_REQUESTS)
+	if (m_hkdfState->State[m_hkdfGenerator->TagSize()] + ((Length + m_hkdfGenerator->TagSize() - 1) / m_hkdfGenerator->TagSize()) > MAXGEN_REQUESTS)
 	{
 		throw CryptoKdfException(Name(), std::string("Generate"), std::string("Request exceeds maximum allowed output!"), ErrorCodes::MaxExceeded);
 	}
-- 
2.43.0


From 7ec0170746c0dd00874c440ed4d441bae65d7cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:23:30 +0000
Subject: [PATCH 45/57] fix: the memory cost of SCBKDF limits its cache

---
 CEX/SCBKDF.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CEX/SCBKDF.cpp b/CEX/SCBKDF.cpp
index a15e6e0..6303c1b 100644
--- a/CEX/SCBKDF.cpp
+++ b/CEX/SCBKDF.cpp
@@ -211,7 +211,7 @@ void SCBKDF::Expand(std::unique_ptr<ScbkdfState> &State)
 		Keccak::Absorb(State->Cache, 0, State->Cache.size(), State->Rate, State->Domain, State->State);
 
 		// increase the cache size up to memory cost
-		if (State->State.size() < State->MemoryCost * MB1)
+		if (State->Cache.size() < State->MemoryCost * MB1)
 		{
 			const size_t CLEN = State->Cache.size();
 			State->Cache.resize(CLEN + State->Rate);
-- 
2.43.0


From 5c9860e3571143221e13045b5db78997457e130d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:37:22 +0000
Subject: [PATCH 46/57] fix: CSG with a provider instance uses the rate and key
 size of SHAKE-512

---
 CEX/CSG.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/CEX/CSG.cpp b/CEX/CSG.cpp
index be56a73..60bdf61 100644
--- a/CEX/CSG.cpp
+++ b/CEX/CSG.cpp
@@ -134,27 +134,27 @@ CSG::CSG(ShakeModes ShakeModeType, IProvider* Provider, bool Parallel)
 			SymmetricKeySize(
 				(ShakeModeType == ShakeModes::SHAKE128 ? Keccak::KECCAK128_DIGEST_SIZE :
 					ShakeModeType == ShakeModes::SHAKE256 ? Keccak::KECCAK256_DIGEST_SIZE :
-					ShakeModeType == ShakeModes::SHAKE512),
+					Keccak::KECCAK512_DIGEST_SIZE),
 				0,
 				0),
 			SymmetricKeySize(
 				(ShakeModeType == ShakeModes::SHAKE128 ? Keccak::KECCAK128_DIGEST_SIZE :
 					ShakeModeType == ShakeModes::SHAKE256 ? Keccak::KECCAK256_DIGEST_SIZE :
-					ShakeModeType == ShakeModes::SHAKE512),
+					Keccak::KECCAK512_DIGEST_SIZE),
 				0,
 				(ShakeModeType == ShakeModes::SHAKE128 ? Keccak::KECCAK128_DIGEST_SIZE :
 					ShakeModeType == ShakeModes::SHAKE256 ? Keccak::KECCAK256_DIGEST_SIZE :
-					ShakeModeType == ShakeModes::SHAKE512)),
+					Keccak::KECCAK512_DIGEST_SIZE)),
 			SymmetricKeySize(
 				(ShakeModeType == ShakeModes::SHAKE128 ? Keccak::KECCAK128_DIGEST_SIZE :
 					ShakeModeType == ShakeModes::SHAKE256 ? Keccak::KECCAK256_DIGEST_SIZE :
-					ShakeModeType == ShakeModes::SHAKE512),
+					Keccak::KECCAK512_DIGEST_SIZE),
 				(ShakeModeType == ShakeModes::SHAKE128 ? Keccak::KECCAK128_DIGEST_SIZE :
 					ShakeModeType == ShakeModes::SHAKE256 ? Keccak::KECCAK256_DIGEST_SIZE :
-					ShakeModeType == ShakeModes::SHAKE512),
+					Keccak::KECCAK512_DIGEST_SIZE),
 				(ShakeModeType == ShakeModes::SHAKE128 ? Keccak::KECCAK128_DIGEST_SIZE :
 					ShakeModeType == ShakeModes::SHAKE256 ? Keccak::KECCAK256_DIGEST_SIZE :
-					ShakeModeType == ShakeModes::SHAKE512))},
+					Keccak::KECCAK512_DIGEST_SIZE))},
 		MAX_OUTPUT,
 		MAX_REQUEST,
 		MAX_THRESHOLD),
@@ -164,7 +164,7 @@ CSG::CSG(ShakeModes ShakeModeType, IProvider* Provider, bool Parallel)
 			ShakeModeType,
 			((ShakeModeType == ShakeModes::SHAKE128) ? Keccak::KECCAK128_RATE_SIZE :
 				(ShakeModeType == ShakeModes::SHAKE256) ? Keccak::KECCAK256_RATE_SIZE :
-				(ShakeModeType == ShakeModes::SHAKE512)), 
+				Keccak::KECCAK512_RATE_SIZE), 
 			DEF_RESEED, 
 			false))
 {
-- 
2.43.0


From c7628ce22fb517b73eb54d95a2fb4bf1f9f33f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:37:22 +0000
Subject: [PATCH 47/57] fix: CSG encodes customization and name that fill or
 cross a block

---
 CEX/CSG.cpp | 51 +--------------------------------------------------
 1 file changed, 1 insertion(+), 50 deletions(-)

diff --git a/CEX/CSG.cpp b/CEX/CSG.cpp
index 60bdf61..ff18e85 100644
--- a/CEX/CSG.cpp
+++ b/CEX/CSG.cpp
@@ -421,56 +421,7 @@ void CSG::Absorb(const SecureVector<uint8_t> &Input, size_t InOffset, size_t Len
 
 void CSG::Customize(const SecureVector<uint8_t> &Customization, const SecureVector<uint8_t> &Information, std::unique_ptr<CsgState> &State)
 {
-	std::array<uint8_t, BUFFER_SIZE> pad = { 0 };
-	size_t i;
-	size_t offset;
-
-	// encode the buffer
-	MemoryTools::Clear(pad, 0, pad.size());
-	offset = Keccak::LeftEncode(pad, 0, static_cast<uint64_t>(State->Rate));
-	offset += Keccak::LeftEncode(pad, offset, static_cast<uint64_t>(Information.size()) * 8);
-
-	if (Information.size() != 0)
-	{
-		for (i = 0; i < Information.size(); ++i)
-		{
-			// absorb and permute full blocks
-			if (offset == State->Rate)
-			{
-				Keccak::FastAbsorb(pad, 0, State->Rate, State->State[State->Index]);
-				Permute(State);
-				offset = 0;
-			}
-
-			pad[offset] = Information[i];
-			++offset;
-		}
-	}
-
-	offset += Keccak::LeftEncode(pad, offset, static_cast<uint64_t>(Customization.size()) * 8);
-
-	if (Customization.size() != 0)
-	{
-		for (i = 0; i < Customization.size(); ++i)
-		{
-			// absorb and permute the block
-			if (offset == State->Rate)
-			{
-				Keccak::FastAbsorb(pad, 0, State->Rate, State->State[State->Index]);
-				Permute(State);
-				offset = 0;
-			}
-
-			pad[offset] = Customization[i];
-			++offset;
-		}
-	}
-
-	// finalize and permute the state
-	MemoryTools::Clear(pad, offset, BUFFER_SIZE - offset);
-	offset = (offset % sizeof(uint64_t) == 0) ? offset : offset + (sizeof(uint64_t) - (offset % sizeof(uint64_t)));
-	MemoryTools::XOR(pad, 0, State->State[State->Index], 0, offset);
-	Permute(State);
+	Keccak::Customize(Customization, Information, State->Rate, State->State[State->Index]);
 }
 
 void CSG::Derive(std::unique_ptr<IProvider> &Provider, std::unique_ptr<CsgState> &State)
-- 
2.43.0


From 6c0232919077aacec086ae6f6a8be49e1dfee62a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:37:22 +0000
Subject: [PATCH 48/57] fix: HCG with a digest instance accepts SHA2-512 and
 carries its own name

---
 CEX/HCG.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CEX/HCG.cpp b/CEX/HCG.cpp
index 9e11f7f..0ef97ce 100644
--- a/CEX/HCG.cpp
+++ b/CEX/HCG.cpp
@@ -106,7 +106,7 @@ HCG::HCG(IDigest* Digest, IProvider* Provider)
 	:
 	DrbgBase(
 		Drbgs::HCG,
-		(Digest != nullptr ? DrbgConvert::ToName(Drbgs::BCG) + std::string("-") + DigestConvert::ToName(Digest->Enumeral()) :
+		(Digest != nullptr ? DrbgConvert::ToName(Drbgs::HCG) + std::string("-") + DigestConvert::ToName(Digest->Enumeral()) :
 			throw CryptoGeneratorException(DrbgConvert::ToName(Drbgs::HCG), std::string("Constructor"), std::string("The digest can not be null!"), ErrorCodes::IllegalOperation)),
 		Digest != nullptr ? 
 			(Digest->Enumeral() == Digests::SHA2256 ?
@@ -122,7 +122,7 @@ HCG::HCG(IDigest* Digest, IProvider* Provider)
 		MAX_OUTPUT,
 		MAX_REQUEST,
 		MAX_THRESHOLD),
-	m_hcgGenerator(Digest != nullptr && (Digest->Enumeral() == Digests::SHA2256 || Digest->Enumeral() != Digests::SHA2512) ? 
+	m_hcgGenerator(Digest != nullptr && (Digest->Enumeral() == Digests::SHA2256 || Digest->Enumeral() == Digests::SHA2512) ? 
 		new HMAC(Digest) :
 		throw CryptoGeneratorException(DrbgConvert::ToName(Drbgs::HCG), std::string("Constructor"), std::string("The digest type is not supported!"), ErrorCodes::IllegalOperation)),
 	m_hcgProvider(Provider),
-- 
2.43.0


From 373a619f5ec03f38364a56c5c0cd5cdc1abba068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:37:22 +0000
Subject: [PATCH 49/57] fix: an update of BCG preserves the distribution code

---
 CEX/BCG.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/CEX/BCG.cpp b/CEX/BCG.cpp
index ec9824b..5508212 100644
--- a/CEX/BCG.cpp
+++ b/CEX/BCG.cpp
@@ -371,8 +371,9 @@ void BCG::Update(const SecureVector<uint8_t> &Key)
 		Derive(tmpk, m_bcgProvider);
 	}
 
-	// reinitialize the generator with the nonce and distribution codes preserved
-	SymmetricKey kp(tmpk, m_bcgState->Nonce, m_bcgState->Custom);
+	// reinitialize the generator with the nonce and distribution codes preserved; Initialize prepends the version string
+	SecureVector<uint8_t> tmpi(m_bcgState->Custom.begin() + BCG_INFO.size(), m_bcgState->Custom.end());
+	SymmetricKey kp(tmpk, m_bcgState->Nonce, tmpi);
 	Initialize(kp);
 	// reset the reseed counter
 	m_bcgState->Counter = 0;
-- 
2.43.0


From 1a5b96b4bc625f977b6939f52f396125b57aee46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:37:22 +0000
Subject: [PATCH 50/57] fix: BCG does not destroy a provider instance that it
 was lent

---
 CEX/BCG.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/CEX/BCG.cpp b/CEX/BCG.cpp
index 5508212..fddf127 100644
--- a/CEX/BCG.cpp
+++ b/CEX/BCG.cpp
@@ -81,7 +81,6 @@ public:
 		Counter = 0;
 		KeySize = 0;
 		Rounds = 0;
-		IsDestroyed = false;
 		IsInitialized = false;
 	}
 };
@@ -123,7 +122,7 @@ BCG::BCG(IProvider* Provider, bool Parallel)
 	m_bcgProvider(Provider != nullptr ? 
 		Provider :
 		throw CryptoGeneratorException(DrbgConvert::ToName(Drbgs::BCG), std::string("Constructor"), std::string("The provider can not be null!"), ErrorCodes::IllegalOperation)),
-	m_bcgState(new BcgState(DEF_RESEED, true, Parallel)),
+	m_bcgState(new BcgState(DEF_RESEED, false, Parallel)),
 	m_parallelProfile(BLOCK_SIZE, true, RESERVE_CACHE, false)
 {
 }
-- 
2.43.0


From 13b2429252b29db547a5a55df9a8efbf6838445f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:37:22 +0000
Subject: [PATCH 51/57] fix: the lanes of a parallel BCG continue the little
 endian counter

---
 CEX/BCG.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CEX/BCG.cpp b/CEX/BCG.cpp
index fddf127..5b15a0b 100644
--- a/CEX/BCG.cpp
+++ b/CEX/BCG.cpp
@@ -557,7 +557,7 @@ void BCG::Process(SecureVector<uint8_t> &Output, size_t OutOffset, size_t Length
 			// thread level counter
 			SecureVector<uint8_t> thdCtr(BLOCK_SIZE);
 			// offset counter by chunk size / block size  
-			IntegerTools::BeIncrease8(m_bcgState->Nonce, thdCtr, static_cast<uint32_t>(CTRLEN * i));
+			IntegerTools::LeIncrease8(m_bcgState->Nonce, thdCtr, 0, 16, static_cast<uint32_t>(CTRLEN * i));
 			// generate random at output offset
 			this->Transform(Output, OutOffset + (i * CNKLEN), CNKLEN, thdCtr);
 			// store last counter
-- 
2.43.0


From ffdeb5983a7db719b97c1439acba0d1d8f5eab40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:28:01 +0000
Subject: [PATCH 52/57] fix: decompression of the 5-bit Kyber polynomial does
 not read past the cipher-text

---
 CEX/KyberBase.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/CEX/KyberBase.cpp b/CEX/KyberBase.cpp
index bf8a7d7..927d3ba 100644
--- a/CEX/KyberBase.cpp
+++ b/CEX/KyberBase.cpp
@@ -699,12 +699,16 @@ void KyberBase::PolyDecompressAvx2P160(Poly &R, const std::vector<uint8_t> &A, s
     const __m256i shift = _mm256_set_epi16(128, 16, 512, 64, 8, 256, 32, 1024,
         128, 16, 512, 64, 8, 256, 32, 1024);
     __m256i f;
+    __m128i t;
     int16_t* pr = R.coeffs.data();
     const uint8_t* pa = A.data() + AOffset;
 
     for (size_t i = 0; i < R.coeffs.size() / 16; ++i)
     {
-        f = _mm256_broadcastsi128_si256(_mm_loadu_si128(reinterpret_cast<const __m128i*>(&pa[10 * i])));
+        // ten bytes only, the last block is followed by the end of the cipher-text
+        t = _mm_loadl_epi64(reinterpret_cast<const __m128i*>(&pa[10 * i]));
+        t = _mm_insert_epi16(t, pa[(10 * i) + 8] | (pa[(10 * i) + 9] << 8), 4);
+        f = _mm256_broadcastsi128_si256(t);
         f = _mm256_shuffle_epi8(f, shufbidx);
         f = _mm256_and_si256(f, mask);
         f = _mm256_mullo_epi16(f, shift);
-- 
2.43.0


From 7cf7d42d2b284edda8a2f48a089c4cfb9ab52e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:28:01 +0000
Subject: [PATCH 53/57] fix: the four lane Keccak absorb does not read past the
 end of its inputs

---
 CEX/Keccak.h | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/CEX/Keccak.h b/CEX/Keccak.h
index 2ef50c0..110c00c 100644
--- a/CEX/Keccak.h
+++ b/CEX/Keccak.h
@@ -7978,9 +7978,14 @@ public:
 
 		if (InputLength != 0)
 		{
-			t = _mm256_i64gather_epi64((int64_t*)pos, idx, 1);
-			idx = _mm256_set1_epi64x((1ULL << (sizeof(uint64_t) * InputLength)) - 1);
-			t = _mm256_and_si256(t, idx);
+			// the last partial lane is copied, a gather would read past the end of the input
+			uint64_t tail[4] = { 0 };
+
+			std::memcpy(&tail[0], Input0.data() + pos, InputLength);
+			std::memcpy(&tail[1], Input1.data() + pos, InputLength);
+			std::memcpy(&tail[2], Input2.data() + pos, InputLength);
+			std::memcpy(&tail[3], Input3.data() + pos, InputLength);
+			t = _mm256_loadu_si256(reinterpret_cast<const __m256i*>(tail));
 			State[i] = _mm256_xor_si256(State[i], t);
 		}
 
-- 
2.43.0


From 65ba8259052fa49ae0b84362f963239a5e9c7bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:28:01 +0000
Subject: [PATCH 54/57] fix: the Kyber sampling buffers cover the vector loads
 of the samplers

---
 CEX/KyberBase.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/CEX/KyberBase.cpp b/CEX/KyberBase.cpp
index 927d3ba..3f1df46 100644
--- a/CEX/KyberBase.cpp
+++ b/CEX/KyberBase.cpp
@@ -189,12 +189,13 @@ void KyberBase::PolyToMsg(std::vector<uint8_t> &Msg, const Poly &A)
 
 void KyberBase::PolyGetNoiseEta1(Poly &R, const std::vector<uint8_t> &Seed, size_t SOffset, uint8_t Nonce, uint32_t Eta1)
 {
-    std::vector<uint8_t> buf(Eta1 * KYBER_N / 4);
+    // the vector sampler loads 32 bytes at the last group of 24
+    std::vector<uint8_t> buf((Eta1 * KYBER_N / 4) + 8);
     std::vector<uint8_t> extkey(KYBER_SYMBYTES + 1);
 
     MemoryTools::Copy(Seed, SOffset, extkey, 0, KYBER_SYMBYTES);
     extkey[KYBER_SYMBYTES] = Nonce;
-    Keccak::XOFP1600(extkey, 0, extkey.size(), buf, 0, buf.size(), Keccak::KECCAK256_RATE_SIZE);
+    Keccak::XOFP1600(extkey, 0, extkey.size(), buf, 0, Eta1 * KYBER_N / 4, Keccak::KECCAK256_RATE_SIZE);
 
     PolyCbdEta1(R, buf, Eta1);
 }
@@ -1207,7 +1208,8 @@ void KyberBase::GenMatrix(std::vector<PolyVec> &A, const std::vector<uint8_t> &S
 
     for (i = 0; i < VLEN; ++i)
     {
-        buf[i].resize(GEN_MATRIX_NBLOCKS * Keccak::KECCAK128_RATE_SIZE + 2, 0x00);
+        // the vector sampler loads 32 bytes at the last group of 24
+        buf[i].resize(GEN_MATRIX_NBLOCKS * Keccak::KECCAK128_RATE_SIZE + 8, 0x00);
         extseed[i].resize(KYBER_SYMBYTES + 2, 0x00);
 
         if (i < K)
-- 
2.43.0


From 29825e18fff5375d4687cb402508904d650a9db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:28:01 +0000
Subject: [PATCH 55/57] fix: the Dilithium eta sampler continues a polynomial
 at its offset

---
 CEX/DLTMPolyMath.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/CEX/DLTMPolyMath.cpp b/CEX/DLTMPolyMath.cpp
index 4947dc0..4577070 100644
--- a/CEX/DLTMPolyMath.cpp
+++ b/CEX/DLTMPolyMath.cpp
@@ -1712,14 +1712,14 @@ size_t DLTMPolyMath::RejEta(std::array<int32_t, 256> &A, size_t AOffset, size_t
 			if (t0 < 15)
 			{
 				t0 = t0 - (205 * t0 >> 10) * 5;
-				A[ctr] = 2 - t0;
+				A[AOffset + ctr] = 2 - t0;
 				++ctr;
 			}
 
 			if (t1 < 15 && ctr < ALength)
 			{
 				t1 = t1 - (205 * t1 >> 10) * 5;
-				A[ctr] = 2 - t1;
+				A[AOffset + ctr] = 2 - t1;
 				++ctr;
 			}
 		}
@@ -1727,13 +1727,13 @@ size_t DLTMPolyMath::RejEta(std::array<int32_t, 256> &A, size_t AOffset, size_t
 		{
 			if (t0 < 9)
 			{
-				A[ctr] = 4 - t0;
+				A[AOffset + ctr] = 4 - t0;
 				++ctr;
 			}
 
 			if (t1 < 9 && ctr < ALength)
 			{
-				A[ctr] = 4 - t1;
+				A[AOffset + ctr] = 4 - t1;
 				++ctr;
 			}
 		}
-- 
2.43.0


From a7cec8fe6db3dc8b05bf021965cff258816d3bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:28:01 +0000
Subject: [PATCH 56/57] fix: the vector form of the Dilithium hint treats zero
 low bits as the scalar form

---
 CEX/DLTMPolyMath.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/CEX/DLTMPolyMath.cpp b/CEX/DLTMPolyMath.cpp
index 4577070..8b9cd0b 100644
--- a/CEX/DLTMPolyMath.cpp
+++ b/CEX/DLTMPolyMath.cpp
@@ -367,7 +367,8 @@ void DLTMPolyMath::PolyUseHint(std::array<int32_t, 256> &B, const std::array<int
 			f = _mm256_load_si256((__m256i*)&a0[8 * i]);
 			g = _mm256_load_si256((__m256i*)&B[8 * i]);
 			h = _mm256_load_si256((__m256i*)&H[8 * i]);
-			t = _mm256_blendv_epi32(zero, h, f);
+			// a hint moves the high bits up only when the low bits are positive
+			t = _mm256_andnot_si256(_mm256_cmpgt_epi32(f, zero), h);
 			t = _mm256_slli_epi32(t, 1);
 			h = _mm256_sub_epi32(h, t);
 			g = _mm256_add_epi32(g, h);
@@ -385,7 +386,8 @@ void DLTMPolyMath::PolyUseHint(std::array<int32_t, 256> &B, const std::array<int
 			f = _mm256_load_si256((__m256i*)&a0[8 * i]);
 			g = _mm256_load_si256((__m256i*)&B[8 * i]);
 			h = _mm256_load_si256((__m256i*)&H[8 * i]);
-			t = _mm256_blendv_epi32(zero, h, f);
+			// a hint moves the high bits up only when the low bits are positive
+			t = _mm256_andnot_si256(_mm256_cmpgt_epi32(f, zero), h);
 			t = _mm256_slli_epi32(t, 1);
 			h = _mm256_sub_epi32(h, t);
 			g = _mm256_add_epi32(g, h);
-- 
2.43.0


From c99f1d4799eba9c8bbb493e88255bbcf4663b5df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:28:01 +0000
Subject: [PATCH 57/57] fix: the Dilithium matrix sampler uses only the bytes
 squeezed from Keccak

---
 CEX/DLTMPolyMath.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/CEX/DLTMPolyMath.cpp b/CEX/DLTMPolyMath.cpp
index 8b9cd0b..237dbd4 100644
--- a/CEX/DLTMPolyMath.cpp
+++ b/CEX/DLTMPolyMath.cpp
@@ -490,10 +490,10 @@ void DLTMPolyMath::PolyUniform4x(std::array<int32_t, 256> &A0, std::array<int32_
     Keccak::AbsorbR24x1600H(ksi, Keccak::KECCAK128_RATE_SIZE, buf[0], buf[1], buf[2], buf[3], DILITHIUM_SEED_SIZE + 2, Keccak::KECCAK_SHAKE_DOMAIN);
     Keccak::SqueezeBlocksR24x1600H(ksi, Keccak::KECCAK128_RATE_SIZE, buf[0], buf[1], buf[2], buf[3], 5);
 
-    ctr0 = RejUniformAvx2(A0, 0, A0.size(), buf[0], buf[0].size());
-    ctr1 = RejUniformAvx2(A1, 0, A1.size(), buf[1], buf[1].size());
-    ctr2 = RejUniformAvx2(A2, 0, A2.size(), buf[2], buf[2].size());
-    ctr3 = RejUniformAvx2(A3, 0, A3.size(), buf[3], buf[3].size());
+    ctr0 = RejUniformAvx2(A0, 0, A0.size(), buf[0], 5 * Keccak::KECCAK128_RATE_SIZE);
+    ctr1 = RejUniformAvx2(A1, 0, A1.size(), buf[1], 5 * Keccak::KECCAK128_RATE_SIZE);
+    ctr2 = RejUniformAvx2(A2, 0, A2.size(), buf[2], 5 * Keccak::KECCAK128_RATE_SIZE);
+    ctr3 = RejUniformAvx2(A3, 0, A3.size(), buf[3], 5 * Keccak::KECCAK128_RATE_SIZE);
 
     while (ctr0 < DILITHIUM_N || ctr1 < DILITHIUM_N || ctr2 < DILITHIUM_N || ctr3 < DILITHIUM_N)
     {
-- 
2.43.0

