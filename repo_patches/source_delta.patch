From 9db10edecad61cd57bb87a671f5c064a60325086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:42 +0000
Subject: [PATCH 01/29] fix: state the algorithm of each additional signature
 in its own a=

---
 src/Signatory.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Signatory.cpp b/src/Signatory.cpp
index 9e59350..64b261b 100644
--- a/src/Signatory.cpp
+++ b/src/Signatory.cpp
@@ -144,10 +144,10 @@ std::string Signatory::CreateSignature(const SignatoryOptions& options)
 		std::string dkimHeader;
 		unsigned long arcInstance = options.GetARCInstance();
 		if (arcInstance)
-			dkimHeader += "ARC-Message-Signature: i=" + StringFormat("%lu", arcInstance) + "; a=" + Algorithm2String(options.GetSignatureAlgorithm(), options.GetDigestAlgorithm()) + "; c="
+			dkimHeader += "ARC-Message-Signature: i=" + StringFormat("%lu", arcInstance) + "; a=" + Algorithm2String(signature.GetSignatureAlgorithm(), options.GetDigestAlgorithm()) + "; c="
 						+ CanonMode2String(options.GetCanonModeHeader()) + "/" + CanonMode2String(options.GetCanonModeBody()) + ";";
 		else
-			dkimHeader += "DKIM-Signature: v=1; a=" + Algorithm2String(options.GetSignatureAlgorithm(), options.GetDigestAlgorithm()) + "; c="
+			dkimHeader += "DKIM-Signature: v=1; a=" + Algorithm2String(signature.GetSignatureAlgorithm(), options.GetDigestAlgorithm()) + "; c="
 						+ CanonMode2String(options.GetCanonModeHeader()) + "/" + CanonMode2String(options.GetCanonModeBody()) + ";";
 
 		time_t timestamp = -1;
-- 
2.43.0


From ce2909ae7295ad14e0b6e4e5311f6b78b410e451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:42 +0000
Subject: [PATCH 02/29] fix: parse the message only once when creating several
 signatures

---
 src/Signatory.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Signatory.cpp b/src/Signatory.cpp
index 64b261b..0522c98 100644
--- a/src/Signatory.cpp
+++ b/src/Signatory.cpp
@@ -54,7 +54,7 @@ Signatory::~Signatory()
 
 std::string Signatory::CreateSignature(const SignatoryOptions& options)
 {
-	while (m_msg.ParseLine(m_file) && !m_msg.IsDone()) { }
+	while (!m_msg.IsDone() && m_msg.ParseLine(m_file)) { }
 
 	// create signature for our body (message data)
 	std::unique_ptr<EVP_MD_CTX, std::function<void(EVP_MD_CTX*)>> evpmdbody(EVP_MD_CTX_create(), [] (EVP_MD_CTX* p) { EVP_MD_CTX_destroy(p); });
-- 
2.43.0


From 8ea31f5b97ecfc0a4eac262229ace91ec35a3256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:42 +0000
Subject: [PATCH 03/29] fix: accept only plain decimal numbers as body length
 (l)

---
 src/Signature.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Signature.cpp b/src/Signature.cpp
index fed6983..9e4c222 100644
--- a/src/Signature.cpp
+++ b/src/Signature.cpp
@@ -252,6 +252,9 @@ void Signature::Parse(const std::shared_ptr<DKIM::Header> header)
 		if (l.GetValue().size() > 76)
 			throw DKIM::PermanentError("Invalid body signed length; exceeds 76 digits (l)");
 
+		if (l.GetValue().empty() || l.GetValue().find_first_not_of("0123456789") != std::string::npos)
+			throw DKIM::PermanentError("Invalid body signed length; failed numeric parsing (l)");
+
 		char* ptr;
 		unsigned long bs = strtoul(l.GetValue().c_str(), &ptr, 10);
 		if (errno == ERANGE)
-- 
2.43.0


From 4b885f95badc613b3e4814e7f2b1551df5ae73af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:42 +0000
Subject: [PATCH 04/29] fix: do not read a stale errno when parsing the body
 length (l)

---
 src/Signature.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Signature.cpp b/src/Signature.cpp
index 9e4c222..d2ca422 100644
--- a/src/Signature.cpp
+++ b/src/Signature.cpp
@@ -256,6 +256,7 @@ void Signature::Parse(const std::shared_ptr<DKIM::Header> header)
 			throw DKIM::PermanentError("Invalid body signed length; failed numeric parsing (l)");
 
 		char* ptr;
+		errno = 0;
 		unsigned long bs = strtoul(l.GetValue().c_str(), &ptr, 10);
 		if (errno == ERANGE)
 			throw DKIM::PermanentError("Invalid body signed length; exceeds available storage size of unsigned long (l)");
-- 
2.43.0


From 98ea01acad5bf0846d4780864d6fa37bb6016934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:42 +0000
Subject: [PATCH 05/29] fix: delete the whitespace around the b= value as well
 when verifying

---
 src/Validatory.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Validatory.cpp b/src/Validatory.cpp
index 5181e58..1f7e5db 100644
--- a/src/Validatory.cpp
+++ b/src/Validatory.cpp
@@ -243,7 +243,9 @@ void Validatory::CheckSignature(const std::shared_ptr<DKIM::Header> header,
 
 	DKIM::TagListEntry bTag;
 	sig.GetTag("b", bTag);
-	v.erase((int)bTag.GetValueOffset(), bTag.GetValue().size());
+	size_t bBegin = v.find_last_of('=', (size_t)bTag.GetValueOffset() - 1) + 1;
+	size_t bEnd = v.find(';', bBegin);
+	v.erase(bBegin, bEnd == std::string::npos ? bEnd : bEnd - bBegin);
 
 	std::string tmp = canonicalhead.FilterHeader(h + v);
 #ifdef DEBUG
-- 
2.43.0


From 7d30d3346106f363b4ad90f2a1588774adc2c09f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:42 +0000
Subject: [PATCH 06/29] fix: refuse Ed25519 signatures of the wrong size

---
 src/Validatory.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Validatory.cpp b/src/Validatory.cpp
index 1f7e5db..406d126 100644
--- a/src/Validatory.cpp
+++ b/src/Validatory.cpp
@@ -273,6 +273,8 @@ void Validatory::CheckSignature(const std::shared_ptr<DKIM::Header> header,
 		}
 		break;
 		case DKIM::DKIM_SA_ED25519:
+			if (sig.GetSignatureData().size() != crypto_sign_BYTES)
+				throw DKIM::PermanentError("Signature did not verify", AR_FAIL);
 			if (crypto_sign_verify_detached((const unsigned char*)sig.GetSignatureData().c_str(),
 						md,
 						md_len,
-- 
2.43.0


From b8cc21e9da4676151905842d78a24c0c6872c67f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:42 +0000
Subject: [PATCH 07/29] fix: refuse to sign with Ed25519 when no key is
 provided

---
 src/Signatory.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Signatory.cpp b/src/Signatory.cpp
index 0522c98..0e969c6 100644
--- a/src/Signatory.cpp
+++ b/src/Signatory.cpp
@@ -236,6 +236,9 @@ std::string Signatory::CreateSignature(const SignatoryOptions& options)
 			break;
 			case DKIM::DKIM_SA_ED25519:
 			{
+				if (signature.GetED25519PrivateKey().size() != crypto_sign_SECRETKEYBYTES)
+					throw DKIM::PermanentError("No ED25519 key provided");
+
 				unsigned char sig[crypto_sign_BYTES];
 				if (crypto_sign_detached(sig,
 							nullptr,
-- 
2.43.0


From 580747c1a6c3424744079d8fe61984b4ee7a0229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:42 +0000
Subject: [PATCH 08/29] fix: refuse key records allowing only unknown hash
 algorithms

---
 src/PublicKey.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/PublicKey.cpp b/src/PublicKey.cpp
index 96af961..2944558 100644
--- a/src/PublicKey.cpp
+++ b/src/PublicKey.cpp
@@ -85,6 +85,8 @@ void PublicKey::Parse(const std::string& signature)
 			else if (*a == "sha1")
 				m_digestAlgorithms.push_back(DKIM_A_SHA1);
 		}
+		if (m_digestAlgorithms.empty())
+			throw DKIM::PermanentError("No supported hash algorithm is acceptable (h)");
 	}
 
 	// Key type
-- 
2.43.0


From bc0f8774e20e254a7093a88b7341b3b51f61a0f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:42 +0000
Subject: [PATCH 09/29] fix: refuse key records that are not for email

---
 src/PublicKey.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/PublicKey.cpp b/src/PublicKey.cpp
index 2944558..4bb1eaf 100644
--- a/src/PublicKey.cpp
+++ b/src/PublicKey.cpp
@@ -157,18 +157,25 @@ void PublicKey::Parse(const std::string& signature)
 		if (s.GetValue().empty())
 			throw DKIM::PermanentError("Service type is empty (s)");
 
+		bool email = false;
 		std::list<std::string> type = DKIM::Tokenizer::ValueList(s.GetValue());
 		for (std::list<std::string>::const_iterator a = type.begin();
 				a != type.end(); ++a)
 		{
 			if (*a == "email")
+			{
 				m_serviceType.push_back(DKIM_S_EMAIL);
+				email = true;
+			}
 			else if (*a == "*")
 			{
 				m_serviceType.clear();
+				email = true;
 				break;
 			}
 		}
+		if (!email)
+			throw DKIM::PermanentError("Public key is not usable for email (s)");
 	}
 
 	// Flags
-- 
2.43.0


From 5862e9263bf4e2759b79dfe3e9e00c6c7082fc50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:42 +0000
Subject: [PATCH 10/29] fix: accept the octet 0xFF in quoted strings of address
 lists

---
 src/Tokenizer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Tokenizer.cpp b/src/Tokenizer.cpp
index 9aea7d7..4ff0cb3 100644
--- a/src/Tokenizer.cpp
+++ b/src/Tokenizer.cpp
@@ -198,7 +198,7 @@ DKIM::Tokenizer::AddressListTokens DKIM::Tokenizer::NextAddressListToken(std::st
 			data.get();
 			while (true)
 			{
-				char c = (char)data.get();
+				int c = data.get();
 
 				if (c == EOF) {
 					throw DKIM::PermanentError("unclosed string");
@@ -212,7 +212,7 @@ DKIM::Tokenizer::AddressListTokens DKIM::Tokenizer::NextAddressListToken(std::st
 				} else if (c == '"') {
 					break;
 				} else {
-					token += c;
+					token += (char)c;
 				}
 			}
 			return TOK_QUOTED;
-- 
2.43.0


From 1da98fa0982c5705e5bc89a62dbf03c24942b569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:42 +0000
Subject: [PATCH 11/29] fix: remove headers to sign by name regardless of case

---
 src/SignatoryOptions.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/SignatoryOptions.cpp b/src/SignatoryOptions.cpp
index a07ef08..f7c9780 100644
--- a/src/SignatoryOptions.cpp
+++ b/src/SignatoryOptions.cpp
@@ -21,6 +21,7 @@
 #include "SignatoryOptions.hpp"
 #include "Util.hpp"
 #include <sodium.h>
+#include <strings.h>
 
 using DKIM::SignatoryOptions;
 using DKIM::AdditionalSignaturesOptions;
@@ -211,7 +212,7 @@ SignatoryOptions& SignatoryOptions::AddHeaders(const std::list<std::string>& hea
 SignatoryOptions& SignatoryOptions::DelHeaders(const std::list<std::string>& headers)
 {
 	for (const auto & header : headers)
-		m_headers.remove(header);
+		m_headers.remove_if([&header](const std::string& name) { return strcasecmp(name.c_str(), header.c_str()) == 0; });
 	return *this;
 }
 
-- 
2.43.0


From dd7b8bce4403362319367d1e08f5f2a155347e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:42 +0000
Subject: [PATCH 12/29] fix: make --arcinstance take its argument

---
 tools/src/main.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/src/main.cpp b/tools/src/main.cpp
index d83a2f7..5cec2d7 100644
--- a/tools/src/main.cpp
+++ b/tools/src/main.cpp
@@ -71,7 +71,7 @@ int main(int argc, char* argv[])
 	// longopts
 	static struct option longopts[] = {
 		{ "arc",	 	no_argument,		nullptr,		'a'	},
-		{ "arcinstance",no_argument,		nullptr,		'A'	},
+		{ "arcinstance",required_argument,	nullptr,		'A'	},
 		{ "help",		no_argument,		nullptr,		'h'	},
 		{ "validate",	no_argument,		nullptr,		'v'	},
 		{ "selector",	required_argument,	nullptr,		's'	},
-- 
2.43.0


From e97b1e08c42ef3e51791116bf46ee7ccb3a2dc59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:42 +0000
Subject: [PATCH 13/29] fix: accept the documented option --keytype

---
 tools/src/main.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tools/src/main.cpp b/tools/src/main.cpp
index 5cec2d7..2f49cdd 100644
--- a/tools/src/main.cpp
+++ b/tools/src/main.cpp
@@ -78,6 +78,7 @@ int main(int argc, char* argv[])
 		{ "domain",		required_argument,	nullptr,		'd'	},
 		{ "keyfile",	required_argument,	nullptr,		'k'	},
 		{ "keyformat",	required_argument,	nullptr,		'K'	},
+		{ "keytype",	required_argument,	nullptr,		'K'	},
 		{ nullptr,			0,					nullptr,		0	}
 	};
 
-- 
2.43.0


From 155cef2d55fb5c3f5c80ba0962c002e4d72104b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:42 +0000
Subject: [PATCH 14/29] fix: keep the configured private key when loading
 another one fails

---
 src/SignatoryOptions.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/SignatoryOptions.cpp b/src/SignatoryOptions.cpp
index f7c9780..acf9ee7 100644
--- a/src/SignatoryOptions.cpp
+++ b/src/SignatoryOptions.cpp
@@ -125,9 +125,10 @@ SignatoryOptions& SignatoryOptions::SetPrivateKey(const std::string& privatekey)
 
 				std::string tmp = DKIM::Conversion::Base64_Decode(privatekey);
 				const unsigned char *tmp2 = (const unsigned char*)tmp.c_str();
-				*m_privateKeyRSA = d2i_RSAPrivateKey(nullptr, &tmp2, tmp.size());
-				if (!*m_privateKeyRSA)
+				RSA* rsa = d2i_RSAPrivateKey(nullptr, &tmp2, tmp.size());
+				if (!rsa)
 					throw DKIM::PermanentError("RSA key could not be loaded from DER");
+				*m_privateKeyRSA = rsa;
 			}
 		}
 		break;
@@ -355,9 +356,10 @@ AdditionalSignaturesOptions& AdditionalSignaturesOptions::SetPrivateKey(const st
 
 				std::string tmp = DKIM::Conversion::Base64_Decode(privatekey);
 				const unsigned char *tmp2 = (const unsigned char*)tmp.c_str();
-				m_privateKeyRSA = d2i_RSAPrivateKey(nullptr, &tmp2, tmp.size());
-				if (!m_privateKeyRSA)
+				RSA* rsa = d2i_RSAPrivateKey(nullptr, &tmp2, tmp.size());
+				if (!rsa)
 					throw DKIM::PermanentError("RSA key could not be loaded from DER");
+				m_privateKeyRSA = rsa;
 			}
 		}
 		break;
-- 
2.43.0


From b9dc81edc46dea36595134f7f94f886bb03c4412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:42 +0000
Subject: [PATCH 15/29] fix: refuse to create Ed25519 signatures with SHA1,
 which do not exist

---
 src/Signatory.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Signatory.cpp b/src/Signatory.cpp
index 0e969c6..f5ec57b 100644
--- a/src/Signatory.cpp
+++ b/src/Signatory.cpp
@@ -236,6 +236,8 @@ std::string Signatory::CreateSignature(const SignatoryOptions& options)
 			break;
 			case DKIM::DKIM_SA_ED25519:
 			{
+				if (options.GetDigestAlgorithm() != DKIM::DKIM_A_SHA256)
+					throw DKIM::PermanentError("ED25519 signatures require SHA256");
 				if (signature.GetED25519PrivateKey().size() != crypto_sign_SECRETKEYBYTES)
 					throw DKIM::PermanentError("No ED25519 key provided");
 
-- 
2.43.0


From bd81b24d3a2421357d1a2abac99ca49d0640ad7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:09 +0000
Subject: [PATCH 16/29] fix: refuse to create ARC signatures with an instance
 above 50

---
 src/Signatory.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Signatory.cpp b/src/Signatory.cpp
index f5ec57b..2443886 100644
--- a/src/Signatory.cpp
+++ b/src/Signatory.cpp
@@ -54,6 +54,9 @@ Signatory::~Signatory()
 
 std::string Signatory::CreateSignature(const SignatoryOptions& options)
 {
+	if (options.GetARCInstance() > 50)
+		throw DKIM::PermanentError("ARC instance (i) out of range 1-50");
+
 	while (!m_msg.IsDone() && m_msg.ParseLine(m_file)) { }
 
 	// create signature for our body (message data)
-- 
2.43.0


From 7e53d172fd1f19d17d12ff24e25dbf16043941e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:09 +0000
Subject: [PATCH 17/29] fix: report a message file that cannot be opened when
 signing

---
 tools/src/main.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tools/src/main.cpp b/tools/src/main.cpp
index 2f49cdd..d16c5a4 100644
--- a/tools/src/main.cpp
+++ b/tools/src/main.cpp
@@ -142,6 +142,10 @@ int main(int argc, char* argv[])
 				std::istreambuf_iterator<char>());
 
 		std::ifstream fp(argv[0]);
+		if (!fp) {
+			fprintf(stderr, "file %s could not be open\n", argv[0]);
+			return 1;
+		}
 		try {
 			printf("%s\r\n",
 					Signatory(fp).CreateSignature(
-- 
2.43.0


From 7a0793cf2af8a8ff38d249afb52f814f4a2afac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:27 +0000
Subject: [PATCH 18/29] fix: read each quoted pair of a comment on its own

---
 src/Tokenizer.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Tokenizer.cpp b/src/Tokenizer.cpp
index 4ff0cb3..ccde972 100644
--- a/src/Tokenizer.cpp
+++ b/src/Tokenizer.cpp
@@ -235,6 +235,7 @@ DKIM::Tokenizer::AddressListTokens DKIM::Tokenizer::NextAddressListToken(std::st
 					//if (data.peek() != ')' && data.peek() != '(')
 					//	throw DKIM::PermanentError("unclosed comment");
 					token += (char)data.get();
+					continue;
 				}
 				if (data.peek() == '(')
 					++depth;
-- 
2.43.0


From 4556ebe127b8b6cf3236116aa4e524540a31f533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:02 +0000
Subject: [PATCH 19/29] fix: do not state an identity (i) next to the instance
 (i) of ARC signatures

---
 src/Signatory.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Signatory.cpp b/src/Signatory.cpp
index 2443886..26a31e4 100644
--- a/src/Signatory.cpp
+++ b/src/Signatory.cpp
@@ -174,7 +174,7 @@ std::string Signatory::CreateSignature(const SignatoryOptions& options)
 			limit = StringFormat("; l=%lu", options.GetBodyLength());
 
 		std::string identity;
-		if (!options.GetIdentity().empty())
+		if (!arcInstance && !options.GetIdentity().empty())
 			identity = StringFormat("; i=%s", DKIM::Conversion::QuotedPrintable::Encode(options.GetIdentity()).c_str());
 
 		dkimHeader += "\td=" + signature.GetDomain() + "; s=" + signature.GetSelector() + identity + limit + ";\r\n";
-- 
2.43.0


From 1a673f41f44d36865b175b13dee7903c30a53c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:01 +0000
Subject: [PATCH 20/29] fix: white space folded twice in an address list is no
 text

After one folding white space the tokenizer went on to read a character,
so a second fold right behind it (CRLF SP CRLF SP) turned into text and,
as the case may be, into an address of its own.
---
 src/Tokenizer.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Tokenizer.cpp b/src/Tokenizer.cpp
index ccde972..8898c4c 100644
--- a/src/Tokenizer.cpp
+++ b/src/Tokenizer.cpp
@@ -189,6 +189,7 @@ DKIM::Tokenizer::AddressListTokens DKIM::Tokenizer::NextAddressListToken(std::st
 		{
 			if (!token.empty())
 				break;
+			continue;
 		}
 		if (data.peek() == EOF)
 			break;
-- 
2.43.0


From ffe4be78ef663d85fda7e7ffcb44cd5796ac3556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:43 +0000
Subject: [PATCH 21/29] fix: sign only headers whose name can be stated in h=

---
 src/Signatory.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/Signatory.cpp b/src/Signatory.cpp
index 26a31e4..a778667 100644
--- a/src/Signatory.cpp
+++ b/src/Signatory.cpp
@@ -123,7 +123,11 @@ std::string Signatory::CreateSignature(const SignatoryOptions& options)
 	{
 		std::string name = (*h)->GetName();
 		transform(name.begin(), name.end(), name.begin(), tolower);
-		if (!name.empty())
+		// a name that can not be stated in the tag list (h=) can not be signed
+		bool stateable = std::all_of(name.begin(), name.end(), [](unsigned char c) {
+			return c == ' ' || c == '\t' || (c > 32 && c < 127 && c != ';');
+		});
+		if (!name.empty() && stateable)
 		{
 			if (!signAll && headersToSign.find(name) == headersToSign.end())
 				continue;
-- 
2.43.0


From fffc471a218fd5f54ca1e1ddfde6214d66a08cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:43 +0000
Subject: [PATCH 22/29] fix: never count the signature being verified as one of
 its signed headers

---
 src/Validatory.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Validatory.cpp b/src/Validatory.cpp
index 406d126..58af7b6 100644
--- a/src/Validatory.cpp
+++ b/src/Validatory.cpp
@@ -209,6 +209,10 @@ void Validatory::CheckSignature(const std::shared_ptr<DKIM::Header> header,
 	std::map<std::string, Message::HeaderList> headerCache;
 	for (const auto & hIter : m_msg.GetHeaders())
 	{
+		// the signature being verified is never one of its signed headers
+		if (hIter == header)
+			continue;
+
 		std::string headerName = hIter->GetName();
 		transform(headerName.begin(), headerName.end(), headerName.begin(), tolower);
 		headerCache[headerName].push_back(hIter);
-- 
2.43.0


From 7ed510b037174dbe62aaa47cdb2c243b42ad6a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:59 +0000
Subject: [PATCH 23/29] fix: sign the existing instances of oversigned headers

---
 src/Signatory.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/Signatory.cpp b/src/Signatory.cpp
index a778667..0f20371 100644
--- a/src/Signatory.cpp
+++ b/src/Signatory.cpp
@@ -117,6 +117,14 @@ std::string Signatory::CreateSignature(const SignatoryOptions& options)
 	bool signAll = false;
 	if (headersToSign.empty()) signAll = true;
 
+	// existing instances of an oversigned header precede the oversigned ones
+	auto oversign = options.GetOversignHeaders();
+	for (auto & i : oversign)
+	{
+		transform(i.begin(), i.end(), i.begin(), tolower);
+		headersToSign.insert(i);
+	}
+
 	// add all headers to our cache (they will be pop of the end)
 	const auto & headers = m_msg.GetHeaders();
 	for (auto h = headers.rbegin(); h != headers.rend(); ++h)
@@ -139,9 +147,6 @@ std::string Signatory::CreateSignature(const SignatoryOptions& options)
 			}
 		}
 	}
-	auto oversign = options.GetOversignHeaders();
-	for (auto & i : oversign)
-		transform(i.begin(), i.end(), i.begin(), tolower);
 	signedHeaders.insert(signedHeaders.end(), oversign.begin(), oversign.end());
 
 	std::string dkimHeaders;
-- 
2.43.0


From 41648486cfd07bcd53744b589d2fb0475645bc64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:26 +0000
Subject: [PATCH 24/29] fix: refuse Ed25519 secret keys whose public half is
 not of their seed

---
 src/SignatoryOptions.cpp | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/SignatoryOptions.cpp b/src/SignatoryOptions.cpp
index acf9ee7..b15186c 100644
--- a/src/SignatoryOptions.cpp
+++ b/src/SignatoryOptions.cpp
@@ -141,15 +141,22 @@ SignatoryOptions& SignatoryOptions::SetPrivateKey(const std::string& privatekey)
 				crypto_sign_seed_keypair(pk, sk, (const unsigned char *)seed.c_str());
 				return std::string((char*)sk, crypto_sign_SECRETKEYBYTES);
 			};
+			auto secret_key = [&seed_keypair](const std::string& sk) -> std::string
+			{
+				// a secret key is its seed followed by the public key
+				if (seed_keypair(sk.substr(0, crypto_sign_SEEDBYTES)) != sk)
+					throw DKIM::PermanentError("ED25519 secret key does not match its public key");
+				return sk;
+			};
 			if (privatekey.size() == crypto_sign_SECRETKEYBYTES)
-				*m_privateKeyED25519 = privatekey;
+				*m_privateKeyED25519 = secret_key(privatekey);
 			else if (privatekey.size() == crypto_sign_SEEDBYTES)
 				*m_privateKeyED25519 = seed_keypair(privatekey);
 			else
 			{
 				std::string tmp = DKIM::Conversion::Base64_Decode(privatekey);
 				if (tmp.size() == crypto_sign_SECRETKEYBYTES)
-					*m_privateKeyED25519 = tmp;
+					*m_privateKeyED25519 = secret_key(tmp);
 				else if (tmp.size() == crypto_sign_SEEDBYTES)
 					*m_privateKeyED25519 = seed_keypair(tmp);
 				else
@@ -372,15 +379,22 @@ AdditionalSignaturesOptions& AdditionalSignaturesOptions::SetPrivateKey(const st
 				crypto_sign_seed_keypair(pk, sk, (const unsigned char *)seed.c_str());
 				return std::string((char*)sk, crypto_sign_SECRETKEYBYTES);
 			};
+			auto secret_key = [&seed_keypair](const std::string& sk) -> std::string
+			{
+				// a secret key is its seed followed by the public key
+				if (seed_keypair(sk.substr(0, crypto_sign_SEEDBYTES)) != sk)
+					throw DKIM::PermanentError("ED25519 secret key does not match its public key");
+				return sk;
+			};
 			if (privatekey.size() == crypto_sign_SECRETKEYBYTES)
-				m_privateKeyED25519 = privatekey;
+				m_privateKeyED25519 = secret_key(privatekey);
 			else if (privatekey.size() == crypto_sign_SEEDBYTES)
 				m_privateKeyED25519 = seed_keypair(privatekey);
 			else
 			{
 				std::string tmp = DKIM::Conversion::Base64_Decode(privatekey);
 				if (tmp.size() == crypto_sign_SECRETKEYBYTES)
-					m_privateKeyED25519 = tmp;
+					m_privateKeyED25519 = secret_key(tmp);
 				else if (tmp.size() == crypto_sign_SEEDBYTES)
 					m_privateKeyED25519 = seed_keypair(tmp);
 				else
-- 
2.43.0


From 80453136a5cc951c51562b43ec305240697c74bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:12 +0000
Subject: [PATCH 25/29] fix: read white space that is no FWS in linear time

A run of WSP followed by a CRLF that folds nothing was read, put back and
tried again for every character of it, so that a key record of 60 kB (h=x,
spaces, CRLF, x) kept the verifier busy for more than a minute.  ValueList,
the address list tokenizer and the relaxed header canonicalization read such
a run at once; what they return does not change.
---
 src/Canonicalization.cpp |  2 +-
 src/Tokenizer.cpp        | 13 +++++++++++--
 src/Tokenizer.hpp        |  7 +++++++
 3 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/Canonicalization.cpp b/src/Canonicalization.cpp
index ed75e13..f5d0604 100644
--- a/src/Canonicalization.cpp
+++ b/src/Canonicalization.cpp
@@ -94,7 +94,7 @@ std::string CanonicalizationHeader::FilterHeader(const std::string& input) const
 		if (found)
 			x += " ";
 
-		x += (char)data.get();
+		x += DKIM::Tokenizer::ReadCharacter(data);
 	}
 
 	/**
diff --git a/src/Tokenizer.cpp b/src/Tokenizer.cpp
index 8898c4c..9b0e88b 100644
--- a/src/Tokenizer.cpp
+++ b/src/Tokenizer.cpp
@@ -126,6 +126,15 @@ unwind:
 	return "";
 }
 
+std::string DKIM::Tokenizer::ReadCharacter(std::istream& stream)
+{
+	std::string _s;
+	do {
+		_s += (char)stream.get();
+	} while ((_s.back() == ' ' || _s.back() == '\t') && (stream.peek() == ' ' || stream.peek() == '\t'));
+	return _s;
+}
+
 std::list<std::string> DKIM::Tokenizer::ValueList(const std::string& input)
 {
 	std::list<std::string> values;
@@ -158,7 +167,7 @@ std::list<std::string> DKIM::Tokenizer::ValueList(const std::string& input)
 					value_buf = "";
 				}
 
-				value += (char)data.get();
+				value += ReadCharacter(data);
 			}
 
 			value_buf += ws;
@@ -268,7 +277,7 @@ DKIM::Tokenizer::AddressListTokens DKIM::Tokenizer::NextAddressListToken(std::st
 			data.get();
 			return TOK_SEPARATOR;
 		}
-		token += (char)data.get();
+		token += ReadCharacter(data);
 	}
 
 	if (!token.empty()) return TOK_ATOM;
diff --git a/src/Tokenizer.hpp b/src/Tokenizer.hpp
index a88e0a8..5f74b11 100644
--- a/src/Tokenizer.hpp
+++ b/src/Tokenizer.hpp
@@ -37,6 +37,13 @@ namespace DKIM {
 
 		std::string ReadWhiteSpace(std::istream& stream, WhiteSpaceType type);
 
+		/**
+		 * Read the next character after READ_FWS came back empty. If it is WSP
+		 * it belongs to a run which is no FWS, read all of the run in that case
+		 * (trying READ_FWS for every character of it takes quadratic time)
+		 */
+		std::string ReadCharacter(std::istream& stream);
+
 		std::list<std::string> ValueList(const std::string& input);
 
 		typedef enum {
-- 
2.43.0


From 274448771ff95bc5399e420ad1f8639bc45f1fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:02 +0000
Subject: [PATCH 26/29] fix: release the RSA key held when another one is set
 or loaded

SetRSAPrivateKey and SetPrivateKey overwrote an owned key without freeing it,
a loaded key stayed unfreed after SetRSAPrivateKey(key, false), and parsing a
second key record into a PublicKey lost the first RSA key.
---
 src/PublicKey.cpp        |  1 +
 src/SignatoryOptions.cpp | 12 ++++++++----
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/PublicKey.cpp b/src/PublicKey.cpp
index 4bb1eaf..3c73e82 100644
--- a/src/PublicKey.cpp
+++ b/src/PublicKey.cpp
@@ -136,6 +136,7 @@ void PublicKey::Parse(const std::string& signature)
 				throw DKIM::PermanentError("Public key could not be loaded (key type must be RSA/RSA2)");
 			}
 
+			RSA_free(m_publicKeyRSA);
 			m_publicKeyRSA = EVP_PKEY_get1_RSA(publicKey);
 			EVP_PKEY_free(publicKey);
 		}
diff --git a/src/SignatoryOptions.cpp b/src/SignatoryOptions.cpp
index b15186c..3f4bf63 100644
--- a/src/SignatoryOptions.cpp
+++ b/src/SignatoryOptions.cpp
@@ -116,7 +116,7 @@ SignatoryOptions& SignatoryOptions::SetPrivateKey(const std::string& privatekey)
 					throw DKIM::PermanentError("Private key could not be loaded (key type must be RSA/RSA2)");
 				}
 
-				*m_privateKeyRSA = EVP_PKEY_get1_RSA(privateKey);
+				SetRSAPrivateKey(EVP_PKEY_get1_RSA(privateKey), true);
 				EVP_PKEY_free(privateKey);
 			} else {
 				/*
@@ -128,7 +128,7 @@ SignatoryOptions& SignatoryOptions::SetPrivateKey(const std::string& privatekey)
 				RSA* rsa = d2i_RSAPrivateKey(nullptr, &tmp2, tmp.size());
 				if (!rsa)
 					throw DKIM::PermanentError("RSA key could not be loaded from DER");
-				*m_privateKeyRSA = rsa;
+				SetRSAPrivateKey(rsa, true);
 			}
 		}
 		break;
@@ -170,6 +170,8 @@ SignatoryOptions& SignatoryOptions::SetPrivateKey(const std::string& privatekey)
 
 SignatoryOptions& SignatoryOptions::SetRSAPrivateKey(RSA* privatekey, bool privatekeyfree)
 {
+	if (*m_privateKeyRSAFree && *m_privateKeyRSA != privatekey)
+		RSA_free(*m_privateKeyRSA);
 	*m_privateKeyRSA = privatekey;
 	*m_privateKeyRSAFree = privatekeyfree;
 	return *this;
@@ -297,6 +299,8 @@ AdditionalSignaturesOptions::~AdditionalSignaturesOptions()
 
 AdditionalSignaturesOptions& AdditionalSignaturesOptions::SetRSAPrivateKey(RSA* privatekey, bool privatekeyfree)
 {
+	if (m_privateKeyRSAFree && m_privateKeyRSA != privatekey)
+		RSA_free(m_privateKeyRSA);
 	m_privateKeyRSA = privatekey;
 	m_privateKeyRSAFree = privatekeyfree;
 	return *this;
@@ -354,7 +358,7 @@ AdditionalSignaturesOptions& AdditionalSignaturesOptions::SetPrivateKey(const st
 					throw DKIM::PermanentError("Private key could not be loaded (key type must be RSA/RSA2)");
 				}
 
-				m_privateKeyRSA = EVP_PKEY_get1_RSA(privateKey);
+				SetRSAPrivateKey(EVP_PKEY_get1_RSA(privateKey), true);
 				EVP_PKEY_free(privateKey);
 			} else {
 				/*
@@ -366,7 +370,7 @@ AdditionalSignaturesOptions& AdditionalSignaturesOptions::SetPrivateKey(const st
 				RSA* rsa = d2i_RSAPrivateKey(nullptr, &tmp2, tmp.size());
 				if (!rsa)
 					throw DKIM::PermanentError("RSA key could not be loaded from DER");
-				m_privateKeyRSA = rsa;
+				SetRSAPrivateKey(rsa, true);
 			}
 		}
 		break;
-- 
2.43.0


From 0a577ddbf94706c558767e35b4b5575b903b5f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:10 +0000
Subject: [PATCH 27/29] fix: let copies of a signature's settings share its RSA
 key

The implicit copies of AdditionalSignaturesOptions freed the same key twice,
and assigning SignatoryOptions or PublicKey left two owners of one key.
---
 src/PublicKey.hpp        |  1 +
 src/SignatoryOptions.cpp | 28 ++++++++++++++++++++++++++++
 src/SignatoryOptions.hpp |  3 +++
 3 files changed, 32 insertions(+)

diff --git a/src/PublicKey.hpp b/src/PublicKey.hpp
index b26d0a2..2d51d1f 100644
--- a/src/PublicKey.hpp
+++ b/src/PublicKey.hpp
@@ -75,6 +75,7 @@ namespace DKIM {
 			}
 		private:
 			PublicKey(const PublicKey&);
+			PublicKey& operator=(const PublicKey&);
 
 			TagList m_tagList;
 
diff --git a/src/SignatoryOptions.cpp b/src/SignatoryOptions.cpp
index 3f4bf63..0e13a84 100644
--- a/src/SignatoryOptions.cpp
+++ b/src/SignatoryOptions.cpp
@@ -291,6 +291,34 @@ AdditionalSignaturesOptions::AdditionalSignaturesOptions()
 	m_signatureAlgorithm = DKIM_SA_RSA;
 }
 
+AdditionalSignaturesOptions::AdditionalSignaturesOptions(const AdditionalSignaturesOptions& other)
+: m_privateKeyRSA(other.m_privateKeyRSA)
+, m_privateKeyRSAFree(other.m_privateKeyRSAFree)
+, m_privateKeyED25519(other.m_privateKeyED25519)
+, m_signatureAlgorithm(other.m_signatureAlgorithm)
+, m_domain(other.m_domain)
+, m_selector(other.m_selector)
+{
+	// each copy releases the key
+	if (m_privateKeyRSAFree && m_privateKeyRSA)
+		RSA_up_ref(m_privateKeyRSA);
+}
+
+AdditionalSignaturesOptions& AdditionalSignaturesOptions::operator=(const AdditionalSignaturesOptions& other)
+{
+	if (other.m_privateKeyRSAFree && other.m_privateKeyRSA)
+		RSA_up_ref(other.m_privateKeyRSA);
+	if (m_privateKeyRSAFree)
+		RSA_free(m_privateKeyRSA);
+	m_privateKeyRSA = other.m_privateKeyRSA;
+	m_privateKeyRSAFree = other.m_privateKeyRSAFree;
+	m_privateKeyED25519 = other.m_privateKeyED25519;
+	m_signatureAlgorithm = other.m_signatureAlgorithm;
+	m_domain = other.m_domain;
+	m_selector = other.m_selector;
+	return *this;
+}
+
 AdditionalSignaturesOptions::~AdditionalSignaturesOptions()
 {
 	if (m_privateKeyRSAFree)
diff --git a/src/SignatoryOptions.hpp b/src/SignatoryOptions.hpp
index 5e1b1dc..8d39126 100644
--- a/src/SignatoryOptions.hpp
+++ b/src/SignatoryOptions.hpp
@@ -40,6 +40,8 @@ namespace DKIM
 	{
 		public:
 			AdditionalSignaturesOptions();
+			AdditionalSignaturesOptions(const AdditionalSignaturesOptions& other);
+			AdditionalSignaturesOptions& operator=(const AdditionalSignaturesOptions& other);
 			~AdditionalSignaturesOptions();
 
 			AdditionalSignaturesOptions& SetPrivateKey(const std::string& privatekey);
@@ -134,6 +136,7 @@ namespace DKIM
 			{ return m_identity; }
 		private:
 			SignatoryOptions(const SignatoryOptions&);
+			SignatoryOptions& operator=(const SignatoryOptions&);
 
 			RSA** m_privateKeyRSA;
 			bool* m_privateKeyRSAFree;
-- 
2.43.0


From bcf86ef21728476d989fab97d06683452746c203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:37 +0000
Subject: [PATCH 28/29] fix: release the digest of a signature whose header can
 not be canonicalized

---
 src/Signatory.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Signatory.cpp b/src/Signatory.cpp
index 0f20371..267cdb7 100644
--- a/src/Signatory.cpp
+++ b/src/Signatory.cpp
@@ -205,9 +205,9 @@ std::string Signatory::CreateSignature(const SignatoryOptions& options)
 		dkimHeader += "\tbh=" + Base64_Encode(bh) + ";\r\n";
 		dkimHeader += "\tb=";
 
+		std::string tmp2 = canonicalhead.FilterHeader(dkimHeader);
 		EVP_MD_CTX* evpmdhead2 = EVP_MD_CTX_new();
 		EVP_MD_CTX_copy(evpmdhead2, evpmdhead.get());
-		std::string tmp2 = canonicalhead.FilterHeader(dkimHeader);
 		EVP_DigestUpdate(evpmdhead2, tmp2.c_str(), tmp2.size());
 		EVP_DigestFinal_ex(evpmdhead2, md, &md_len);
 		EVP_MD_CTX_free(evpmdhead2);
-- 
2.43.0


From 5c9b97b7dc20dea79e57eefa6e07b4630ffc4c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:59 +0000
Subject: [PATCH 29/29] fix: compare and lower header names and domains
 independently of the locale

tolower() and strcasecmp() follow setlocale(): in a Turkish locale the I of
DKIM-Signature, List-ID or a domain was not lowered, in 8-bit locales octets
above 127 were changed.
---
 src/Canonicalization.cpp | 2 +-
 src/Signatory.cpp        | 6 +++---
 src/SignatoryOptions.cpp | 8 ++++++--
 src/Signature.cpp        | 6 +++---
 src/Util.cpp             | 5 +++++
 src/Util.hpp             | 2 ++
 src/Validatory.cpp       | 6 +++---
 7 files changed, 23 insertions(+), 12 deletions(-)

diff --git a/src/Canonicalization.cpp b/src/Canonicalization.cpp
index f5d0604..3cbd173 100644
--- a/src/Canonicalization.cpp
+++ b/src/Canonicalization.cpp
@@ -63,7 +63,7 @@ std::string CanonicalizationHeader::FilterHeader(const std::string& input) const
 					input.c_str()
 					)
 				);
-	transform(output.begin(), colon, output.begin(), tolower);
+	transform(output.begin(), colon, output.begin(), DKIM::Util::ToLower);
 
 	/**
 	 * Unfold all header field continuation lines as described in
diff --git a/src/Signatory.cpp b/src/Signatory.cpp
index 267cdb7..707292c 100644
--- a/src/Signatory.cpp
+++ b/src/Signatory.cpp
@@ -108,7 +108,7 @@ std::string Signatory::CreateSignature(const SignatoryOptions& options)
 	std::set<std::string> headersToSign;
 	for (auto name : options.GetHeaders())
 	{
-		transform(name.begin(), name.end(), name.begin(), tolower);
+		transform(name.begin(), name.end(), name.begin(), DKIM::Util::ToLower);
 		headersToSign.insert(name);
 	}
 
@@ -121,7 +121,7 @@ std::string Signatory::CreateSignature(const SignatoryOptions& options)
 	auto oversign = options.GetOversignHeaders();
 	for (auto & i : oversign)
 	{
-		transform(i.begin(), i.end(), i.begin(), tolower);
+		transform(i.begin(), i.end(), i.begin(), DKIM::Util::ToLower);
 		headersToSign.insert(i);
 	}
 
@@ -130,7 +130,7 @@ std::string Signatory::CreateSignature(const SignatoryOptions& options)
 	for (auto h = headers.rbegin(); h != headers.rend(); ++h)
 	{
 		std::string name = (*h)->GetName();
-		transform(name.begin(), name.end(), name.begin(), tolower);
+		transform(name.begin(), name.end(), name.begin(), DKIM::Util::ToLower);
 		// a name that can not be stated in the tag list (h=) can not be signed
 		bool stateable = std::all_of(name.begin(), name.end(), [](unsigned char c) {
 			return c == ' ' || c == '\t' || (c > 32 && c < 127 && c != ';');
diff --git a/src/SignatoryOptions.cpp b/src/SignatoryOptions.cpp
index 0e13a84..1ced4d6 100644
--- a/src/SignatoryOptions.cpp
+++ b/src/SignatoryOptions.cpp
@@ -21,7 +21,7 @@
 #include "SignatoryOptions.hpp"
 #include "Util.hpp"
 #include <sodium.h>
-#include <strings.h>
+#include <algorithm>
 
 using DKIM::SignatoryOptions;
 using DKIM::AdditionalSignaturesOptions;
@@ -222,7 +222,11 @@ SignatoryOptions& SignatoryOptions::AddHeaders(const std::list<std::string>& hea
 SignatoryOptions& SignatoryOptions::DelHeaders(const std::list<std::string>& headers)
 {
 	for (const auto & header : headers)
-		m_headers.remove_if([&header](const std::string& name) { return strcasecmp(name.c_str(), header.c_str()) == 0; });
+		m_headers.remove_if([&header](const std::string& name) {
+			return name.size() == header.size() && std::equal(name.begin(), name.end(), header.begin(), [](char a, char b) {
+				return DKIM::Util::ToLower(a) == DKIM::Util::ToLower(b);
+			});
+		});
 	return *this;
 }
 
diff --git a/src/Signature.cpp b/src/Signature.cpp
index d2ca422..55d4233 100644
--- a/src/Signature.cpp
+++ b/src/Signature.cpp
@@ -74,7 +74,7 @@ void Signature::Parse(const std::shared_ptr<DKIM::Header> header)
 	m_tagList.Parse(header->GetHeader().substr(header->GetValueOffset()));
 
 	std::string headerName = header->GetName();
-	transform(headerName.begin(), headerName.end(), headerName.begin(), tolower);
+	transform(headerName.begin(), headerName.end(), headerName.begin(), DKIM::Util::ToLower);
 	if (headerName == "arc-message-signature")
 		m_arc = true;
 
@@ -87,7 +87,7 @@ void Signature::Parse(const std::shared_ptr<DKIM::Header> header)
 	if (!m_tagList.GetTag("d", d))
 		throw DKIM::PermanentError("Missing domain of the signing entity (d)");
 	m_domain = d.GetValue();
-	transform(m_domain.begin(), m_domain.end(), m_domain.begin(), tolower);
+	transform(m_domain.begin(), m_domain.end(), m_domain.begin(), DKIM::Util::ToLower);
 
 	// Version
 	if (!m_arc)
@@ -229,7 +229,7 @@ void Signature::Parse(const std::shared_ptr<DKIM::Header> header)
 
 			// m_mailDomain should be matched in lower-case
 			m_mailDomain = mail.substr(mailsep+1);
-			transform(m_mailDomain.begin(), m_mailDomain.end(), m_mailDomain.begin(), tolower);
+			transform(m_mailDomain.begin(), m_mailDomain.end(), m_mailDomain.begin(), DKIM::Util::ToLower);
 
 			if (m_mailDomain == m_domain) {
 				// same domain
diff --git a/src/Util.cpp b/src/Util.cpp
index 9c0436a..5549a4d 100644
--- a/src/Util.cpp
+++ b/src/Util.cpp
@@ -74,6 +74,11 @@ std::string DKIM::Util::StringFormat(const char* fmt, ...)
 	return result;
 }
 
+char DKIM::Util::ToLower(char c)
+{
+	return c >= 'A' && c <= 'Z' ? c - 'A' + 'a' : c;
+}
+
 static std::string alphanum =
 	"abcdefghijklmnopqrstuvwxyz"
 	"ABCDEFGHIJKLMNOPQRSTUVWXYZ"
diff --git a/src/Util.hpp b/src/Util.hpp
index 9024903..7e6678e 100644
--- a/src/Util.hpp
+++ b/src/Util.hpp
@@ -31,6 +31,8 @@ namespace DKIM {
 		std::string Algorithm2String(SignatureAlgorithm signatureAlgorithm, DigestAlgorithm digestAlgorithm);
 		std::string StringFormat(const char* fmt, ...)
 			__attribute__((format(printf, 1, 2)));
+		/* lower-case an ASCII letter, whatever the locale */
+		char ToLower(char c);
 		bool ValidateDomain(const std::string& domain);
 	}
 }
diff --git a/src/Validatory.cpp b/src/Validatory.cpp
index 58af7b6..14e8e0d 100644
--- a/src/Validatory.cpp
+++ b/src/Validatory.cpp
@@ -57,7 +57,7 @@ Validatory::Validatory(std::istream& stream, ValidatorType type)
 	{
 		// headers should be matched in lower-case
 		std::string headerName = (*i)->GetName();
-		transform(headerName.begin(), headerName.end(), headerName.begin(), tolower);
+		transform(headerName.begin(), headerName.end(), headerName.begin(), DKIM::Util::ToLower);
 
 		// collect all signatures
 		if ((type == DKIM && headerName == "dkim-signature") ||
@@ -214,7 +214,7 @@ void Validatory::CheckSignature(const std::shared_ptr<DKIM::Header> header,
 			continue;
 
 		std::string headerName = hIter->GetName();
-		transform(headerName.begin(), headerName.end(), headerName.begin(), tolower);
+		transform(headerName.begin(), headerName.end(), headerName.begin(), DKIM::Util::ToLower);
 		headerCache[headerName].push_back(hIter);
 	}
 
@@ -222,7 +222,7 @@ void Validatory::CheckSignature(const std::shared_ptr<DKIM::Header> header,
 	for (auto name : sig.GetSignedHeaders())
 	{
 		std::string tmp;
-		transform(name.begin(), name.end(), name.begin(), tolower);
+		transform(name.begin(), name.end(), name.begin(), DKIM::Util::ToLower);
 
 		std::map<std::string, Message::HeaderList>::iterator head = headerCache.find(name);
 
-- 
2.43.0

