----------------------------- MODULE ConstTable -----------------------------
(* The numeric values of TPM 2.0 Part 2 (and the TCG algorithm registry) for every
   name the library exports, as <<type, name, high 16 bits, low 16 bits>>.          *)
EXTENDS Integers, Sequences

T_TpmAlgId == <<
  <<"TpmAlgId", "RSA", \h0000, \h0001>>,
  <<"TpmAlgId", "TDES", \h0000, \h0003>>,
  <<"TpmAlgId", "SHA1", \h0000, \h0004>>,
  <<"TpmAlgId", "HMAC", \h0000, \h0005>>,
  <<"TpmAlgId", "AES", \h0000, \h0006>>,
  <<"TpmAlgId", "MGF1", \h0000, \h0007>>,
  <<"TpmAlgId", "KeyedHash", \h0000, \h0008>>,
  <<"TpmAlgId", "XOR", \h0000, \h000A>>,
  <<"TpmAlgId", "SHA256", \h0000, \h000B>>,
  <<"TpmAlgId", "SHA384", \h0000, \h000C>>,
  <<"TpmAlgId", "SHA512", \h0000, \h000D>>,
  <<"TpmAlgId", "Null", \h0000, \h0010>>,
  <<"TpmAlgId", "SM3256", \h0000, \h0012>>,
  <<"TpmAlgId", "SM4", \h0000, \h0013>>,
  <<"TpmAlgId", "RSASSA", \h0000, \h0014>>,
  <<"TpmAlgId", "RSAES", \h0000, \h0015>>,
  <<"TpmAlgId", "RSAPSS", \h0000, \h0016>>,
  <<"TpmAlgId", "OAEP", \h0000, \h0017>>,
  <<"TpmAlgId", "ECDSA", \h0000, \h0018>>,
  <<"TpmAlgId", "ECDH", \h0000, \h0019>>,
  <<"TpmAlgId", "ECDAA", \h0000, \h001A>>,
  <<"TpmAlgId", "SM2", \h0000, \h001B>>,
  <<"TpmAlgId", "ECSchnorr", \h0000, \h001C>>,
  <<"TpmAlgId", "ECMQV", \h0000, \h001D>>,
  <<"TpmAlgId", "KDF1SP80056A", \h0000, \h0020>>,
  <<"TpmAlgId", "KDF2", \h0000, \h0021>>,
  <<"TpmAlgId", "KDF1SP800108", \h0000, \h0022>>,
  <<"TpmAlgId", "ECC", \h0000, \h0023>>,
  <<"TpmAlgId", "SymCipher", \h0000, \h0025>>,
  <<"TpmAlgId", "Camellia", \h0000, \h0026>>,
  <<"TpmAlgId", "SHA3256", \h0000, \h0027>>,
  <<"TpmAlgId", "SHA3384", \h0000, \h0028>>,
  <<"TpmAlgId", "SHA3512", \h0000, \h0029>>,
  <<"TpmAlgId", "CMAC", \h0000, \h003F>>,
  <<"TpmAlgId", "CTR", \h0000, \h0040>>,
  <<"TpmAlgId", "OFB", \h0000, \h0041>>,
  <<"TpmAlgId", "CBC", \h0000, \h0042>>,
  <<"TpmAlgId", "CFB", \h0000, \h0043>>,
  <<"TpmAlgId", "ECB", \h0000, \h0044>>
>>
T_TpmEccCurve == <<
  <<"TpmEccCurve", "None", \h0000, \h0000>>,
  <<"TpmEccCurve", "NistP192", \h0000, \h0001>>,
  <<"TpmEccCurve", "NistP224", \h0000, \h0002>>,
  <<"TpmEccCurve", "NistP256", \h0000, \h0003>>,
  <<"TpmEccCurve", "NistP384", \h0000, \h0004>>,
  <<"TpmEccCurve", "NistP521", \h0000, \h0005>>,
  <<"TpmEccCurve", "BNP256", \h0000, \h0010>>,
  <<"TpmEccCurve", "BNP638", \h0000, \h0011>>,
  <<"TpmEccCurve", "SM2P256", \h0000, \h0020>>
>>
T_TpmCc == <<
  <<"TpmCc", "NVUndefineSpaceSpecial", \h0000, \h011F>>,
  <<"TpmCc", "EvictControl", \h0000, \h0120>>,
  <<"TpmCc", "HierarchyControl", \h0000, \h0121>>,
  <<"TpmCc", "NVUndefineSpace", \h0000, \h0122>>,
  <<"TpmCc", "ChangeEPS", \h0000, \h0124>>,
  <<"TpmCc", "ChangePPS", \h0000, \h0125>>,
  <<"TpmCc", "Clear", \h0000, \h0126>>,
  <<"TpmCc", "ClearControl", \h0000, \h0127>>,
  <<"TpmCc", "ClockSet", \h0000, \h0128>>,
  <<"TpmCc", "HierarchyChanegAuth", \h0000, \h0129>>,
  <<"TpmCc", "NVDefineSpace", \h0000, \h012A>>,
  <<"TpmCc", "PCRAllocate", \h0000, \h012B>>,
  <<"TpmCc", "PCRSetAuthPolicy", \h0000, \h012C>>,
  <<"TpmCc", "PPCommands", \h0000, \h012D>>,
  <<"TpmCc", "SetPrimaryPolicy", \h0000, \h012E>>,
  <<"TpmCc", "FieldUpgradeStart", \h0000, \h012F>>,
  <<"TpmCc", "ClockRateAdjust", \h0000, \h0130>>,
  <<"TpmCc", "CreatePrimary", \h0000, \h0131>>,
  <<"TpmCc", "NVGlobalWriteLock", \h0000, \h0132>>,
  <<"TpmCc", "GetCommandAuditDigest", \h0000, \h0133>>,
  <<"TpmCc", "NVIncrement", \h0000, \h0134>>,
  <<"TpmCc", "NVSetBits", \h0000, \h0135>>,
  <<"TpmCc", "NVExtend", \h0000, \h0136>>,
  <<"TpmCc", "NVWrite", \h0000, \h0137>>,
  <<"TpmCc", "NVWriteLock", \h0000, \h0138>>,
  <<"TpmCc", "DictionaryAttackLockReset", \h0000, \h0139>>,
  <<"TpmCc", "DictionaryAttackParameters", \h0000, \h013A>>,
  <<"TpmCc", "NVChangeAuth", \h0000, \h013B>>,
  <<"TpmCc", "PCREvent", \h0000, \h013C>>,
  <<"TpmCc", "PCRReset", \h0000, \h013D>>,
  <<"TpmCc", "SequenceComplete", \h0000, \h013E>>,
  <<"TpmCc", "SetAlgorithmSet", \h0000, \h013F>>,
  <<"TpmCc", "SetCommandCodeAuditStatus", \h0000, \h0140>>,
  <<"TpmCc", "FieldUpgradeData", \h0000, \h0141>>,
  <<"TpmCc", "IncrementalSelfTest", \h0000, \h0142>>,
  <<"TpmCc", "SelfTest", \h0000, \h0143>>,
  <<"TpmCc", "Startup", \h0000, \h0144>>,
  <<"TpmCc", "Shutdown", \h0000, \h0145>>,
  <<"TpmCc", "StirRandom", \h0000, \h0146>>,
  <<"TpmCc", "ActivateCredential", \h0000, \h0147>>,
  <<"TpmCc", "Certify", \h0000, \h0148>>,
  <<"TpmCc", "PolicyNV", \h0000, \h0149>>,
  <<"TpmCc", "CertifyCreation", \h0000, \h014A>>,
  <<"TpmCc", "Duplicate", \h0000, \h014B>>,
  <<"TpmCc", "GetTime", \h0000, \h014C>>,
  <<"TpmCc", "GetSessionAuditDigest", \h0000, \h014D>>,
  <<"TpmCc", "NVRead", \h0000, \h014E>>,
  <<"TpmCc", "NVReadLock", \h0000, \h014F>>,
  <<"TpmCc", "ObjectChangeAuth", \h0000, \h0150>>,
  <<"TpmCc", "PolicySecret", \h0000, \h0151>>,
  <<"TpmCc", "Rewrap", \h0000, \h0152>>,
  <<"TpmCc", "Create", \h0000, \h0153>>,
  <<"TpmCc", "ECDHZGen", \h0000, \h0154>>,
  <<"TpmCc", "MAC", \h0000, \h0155>>,
  <<"TpmCc", "Import", \h0000, \h0156>>,
  <<"TpmCc", "Load", \h0000, \h0157>>,
  <<"TpmCc", "Quote", \h0000, \h0158>>,
  <<"TpmCc", "RSADecrypt", \h0000, \h0159>>,
  <<"TpmCc", "MACStart", \h0000, \h015B>>,
  <<"TpmCc", "SequenceUpdate", \h0000, \h015C>>,
  <<"TpmCc", "Sign", \h0000, \h015D>>,
  <<"TpmCc", "Unseal", \h0000, \h015E>>,
  <<"TpmCc", "PolicySigned", \h0000, \h0160>>,
  <<"TpmCc", "ContextLoad", \h0000, \h0161>>,
  <<"TpmCc", "ContextSave", \h0000, \h0162>>,
  <<"TpmCc", "ECDHKeyGen", \h0000, \h0163>>,
  <<"TpmCc", "EncryptDecrypt", \h0000, \h0164>>,
  <<"TpmCc", "FlushContext", \h0000, \h0165>>,
  <<"TpmCc", "LoadExternal", \h0000, \h0167>>,
  <<"TpmCc", "MakeCredential", \h0000, \h0168>>,
  <<"TpmCc", "NVReadPublic", \h0000, \h0169>>,
  <<"TpmCc", "PolicyAuthorize", \h0000, \h016A>>,
  <<"TpmCc", "PolicyAuthValue", \h0000, \h016B>>,
  <<"TpmCc", "PolicyCommandCode", \h0000, \h016C>>,
  <<"TpmCc", "PolicyCounterTimer", \h0000, \h016D>>,
  <<"TpmCc", "PolicyCpHash", \h0000, \h016E>>,
  <<"TpmCc", "PolicyLocality", \h0000, \h016F>>,
  <<"TpmCc", "PolicyNameHash", \h0000, \h0170>>,
  <<"TpmCc", "PolicyOR", \h0000, \h0171>>,
  <<"TpmCc", "PolicyTicket", \h0000, \h0172>>,
  <<"TpmCc", "ReadPublic", \h0000, \h0173>>,
  <<"TpmCc", "RSAEncrypt", \h0000, \h0174>>,
  <<"TpmCc", "StartAuthSession", \h0000, \h0176>>,
  <<"TpmCc", "VerifySignature", \h0000, \h0177>>,
  <<"TpmCc", "ECCParameters", \h0000, \h0178>>,
  <<"TpmCc", "FirmwareRead", \h0000, \h0179>>,
  <<"TpmCc", "GetCapability", \h0000, \h017A>>,
  <<"TpmCc", "GetRandom", \h0000, \h017B>>,
  <<"TpmCc", "GetTestResult", \h0000, \h017C>>,
  <<"TpmCc", "Hash", \h0000, \h017D>>,
  <<"TpmCc", "PCRRead", \h0000, \h017E>>,
  <<"TpmCc", "PolicyPCR", \h0000, \h017F>>,
  <<"TpmCc", "PolicyRestart", \h0000, \h0180>>,
  <<"TpmCc", "ReadClock", \h0000, \h0181>>,
  <<"TpmCc", "PCRExtend", \h0000, \h0182>>,
  <<"TpmCc", "PCRSetAuthValue", \h0000, \h0183>>,
  <<"TpmCc", "NVCertify", \h0000, \h0184>>,
  <<"TpmCc", "EventSequenceComplete", \h0000, \h0185>>,
  <<"TpmCc", "HashSequenceStart", \h0000, \h0186>>,
  <<"TpmCc", "PolicyPhysicalPresence", \h0000, \h0187>>,
  <<"TpmCc", "PolicyDuplicationSelect", \h0000, \h0188>>,
  <<"TpmCc", "PolicyGetDigest", \h0000, \h0189>>,
  <<"TpmCc", "TestParams", \h0000, \h018A>>,
  <<"TpmCc", "Commit", \h0000, \h018B>>,
  <<"TpmCc", "PolicyPassword", \h0000, \h018C>>,
  <<"TpmCc", "ZGen2Phase", \h0000, \h018D>>,
  <<"TpmCc", "ECEphemeral", \h0000, \h018E>>,
  <<"TpmCc", "PolicyNvWritten", \h0000, \h018F>>,
  <<"TpmCc", "PolicyTemplate", \h0000, \h0190>>,
  <<"TpmCc", "CreateLoaded", \h0000, \h0191>>,
  <<"TpmCc", "PolicyAuthorizeNV", \h0000, \h0192>>,
  <<"TpmCc", "EncryptDecrypt2", \h0000, \h0193>>,
  <<"TpmCc", "ACGetCapability", \h0000, \h0194>>,
  <<"TpmCc", "ACSend", \h0000, \h0195>>,
  <<"TpmCc", "PolicyACSendSelect", \h0000, \h0196>>,
  <<"TpmCc", "CertifyX509", \h0000, \h0197>>,
  <<"TpmCc", "ACTSetTimeout", \h0000, \h0198>>
>>
T_TpmRc == <<
  <<"TpmRc", "Success", \h0000, \h0000>>,
  <<"TpmRc", "Initialize", \h0000, \h0100>>,
  <<"TpmRc", "Failure", \h0000, \h0101>>,
  <<"TpmRc", "Sequence", \h0000, \h0103>>,
  <<"TpmRc", "Private", \h0000, \h010B>>,
  <<"TpmRc", "Hmac", \h0000, \h0119>>,
  <<"TpmRc", "Disabled", \h0000, \h0120>>,
  <<"TpmRc", "Exclusive", \h0000, \h0121>>,
  <<"TpmRc", "AuthType", \h0000, \h0124>>,
  <<"TpmRc", "AuthMissing", \h0000, \h0125>>,
  <<"TpmRc", "Policy", \h0000, \h0126>>,
  <<"TpmRc", "Pcr", \h0000, \h0127>>,
  <<"TpmRc", "PCRChanged", \h0000, \h0128>>,
  <<"TpmRc", "Upgrade", \h0000, \h012D>>,
  <<"TpmRc", "TooManyContexts", \h0000, \h012E>>,
  <<"TpmRc", "AuthUnavailable", \h0000, \h012F>>,
  <<"TpmRc", "Reboot", \h0000, \h0130>>,
  <<"TpmRc", "Unbalanced", \h0000, \h0131>>,
  <<"TpmRc", "CommandSize", \h0000, \h0142>>,
  <<"TpmRc", "CommandCode", \h0000, \h0143>>,
  <<"TpmRc", "AuthSize", \h0000, \h0144>>,
  <<"TpmRc", "AuthContext", \h0000, \h0145>>,
  <<"TpmRc", "NVRange", \h0000, \h0146>>,
  <<"TpmRc", "NVSize", \h0000, \h0147>>,
  <<"TpmRc", "NVLocked", \h0000, \h0148>>,
  <<"TpmRc", "NVAuthorization", \h0000, \h0149>>,
  <<"TpmRc", "NVUninitialized", \h0000, \h014A>>,
  <<"TpmRc", "NVSpace", \h0000, \h014B>>,
  <<"TpmRc", "NVDefined", \h0000, \h014C>>,
  <<"TpmRc", "BadContext", \h0000, \h0150>>,
  <<"TpmRc", "CPHash", \h0000, \h0151>>,
  <<"TpmRc", "Parent", \h0000, \h0152>>,
  <<"TpmRc", "NeedsTest", \h0000, \h0153>>,
  <<"TpmRc", "NoResult", \h0000, \h0154>>,
  <<"TpmRc", "Sensitive", \h0000, \h0155>>,
  <<"TpmRc", "CAsymmetric", \h0000, \h0081>>,
  <<"TpmRc", "Attributes", \h0000, \h0082>>,
  <<"TpmRc", "Hash", \h0000, \h0083>>,
  <<"TpmRc", "Value", \h0000, \h0084>>,
  <<"TpmRc", "Hierarchy", \h0000, \h0085>>,
  <<"TpmRc", "KeySize", \h0000, \h0087>>,
  <<"TpmRc", "Mgf", \h0000, \h0088>>,
  <<"TpmRc", "Mode", \h0000, \h0089>>,
  <<"TpmRc", "Type", \h0000, \h008A>>,
  <<"TpmRc", "Handle", \h0000, \h008B>>,
  <<"TpmRc", "Kdf", \h0000, \h008C>>,
  <<"TpmRc", "Range", \h0000, \h008D>>,
  <<"TpmRc", "AuthFail", \h0000, \h008E>>,
  <<"TpmRc", "Nonce", \h0000, \h008F>>,
  <<"TpmRc", "PP", \h0000, \h0090>>,
  <<"TpmRc", "Scheme", \h0000, \h0092>>,
  <<"TpmRc", "Size", \h0000, \h0095>>,
  <<"TpmRc", "Symmetric", \h0000, \h0096>>,
  <<"TpmRc", "Tag", \h0000, \h0097>>,
  <<"TpmRc", "Selector", \h0000, \h0098>>,
  <<"TpmRc", "Insufficient", \h0000, \h009A>>,
  <<"TpmRc", "Signature", \h0000, \h009B>>,
  <<"TpmRc", "Key", \h0000, \h009C>>,
  <<"TpmRc", "PolicyFail", \h0000, \h009D>>,
  <<"TpmRc", "Integrity", \h0000, \h009F>>,
  <<"TpmRc", "Ticket", \h0000, \h00A0>>,
  <<"TpmRc", "ReservedBits", \h0000, \h00A1>>,
  <<"TpmRc", "BadAuth", \h0000, \h00A2>>,
  <<"TpmRc", "Expired", \h0000, \h00A3>>,
  <<"TpmRc", "PolicyCC", \h0000, \h00A4>>,
  <<"TpmRc", "Binding", \h0000, \h00A5>>,
  <<"TpmRc", "Curve", \h0000, \h00A6>>,
  <<"TpmRc", "ECCPoint", \h0000, \h00A7>>,
  <<"TpmRc", "ContextGap", \h0000, \h0901>>,
  <<"TpmRc", "ObjectMemory", \h0000, \h0902>>,
  <<"TpmRc", "SessionMemory", \h0000, \h0903>>,
  <<"TpmRc", "Memory", \h0000, \h0904>>,
  <<"TpmRc", "SessionHandles", \h0000, \h0905>>,
  <<"TpmRc", "ObjectHandles", \h0000, \h0906>>,
  <<"TpmRc", "Locality", \h0000, \h0907>>,
  <<"TpmRc", "Yielded", \h0000, \h0908>>,
  <<"TpmRc", "Canceled", \h0000, \h0909>>,
  <<"TpmRc", "Testing", \h0000, \h090A>>,
  <<"TpmRc", "ReferenceH0", \h0000, \h0910>>,
  <<"TpmRc", "ReferenceH1", \h0000, \h0911>>,
  <<"TpmRc", "ReferenceH2", \h0000, \h0912>>,
  <<"TpmRc", "ReferenceH3", \h0000, \h0913>>,
  <<"TpmRc", "ReferenceH4", \h0000, \h0914>>,
  <<"TpmRc", "ReferenceH5", \h0000, \h0915>>,
  <<"TpmRc", "ReferenceH6", \h0000, \h0916>>,
  <<"TpmRc", "ReferenceS0", \h0000, \h0918>>,
  <<"TpmRc", "ReferenceS1", \h0000, \h0919>>,
  <<"TpmRc", "ReferenceS2", \h0000, \h091A>>,
  <<"TpmRc", "ReferenceS3", \h0000, \h091B>>,
  <<"TpmRc", "ReferenceS4", \h0000, \h091C>>,
  <<"TpmRc", "ReferenceS5", \h0000, \h091D>>,
  <<"TpmRc", "ReferenceS6", \h0000, \h091E>>,
  <<"TpmRc", "NVRate", \h0000, \h0920>>,
  <<"TpmRc", "Lockout", \h0000, \h0921>>,
  <<"TpmRc", "Retry", \h0000, \h0922>>,
  <<"TpmRc", "NVUnavailable", \h0000, \h0923>>,
  <<"TpmRc", "RC_VER_1", \h0000, \h0100>>,
  <<"TpmRc", "RC_FMT_1", \h0000, \h0080>>,
  <<"TpmRc", "RC_WARN", \h0000, \h0900>>,
  <<"TpmRc", "RC_P", \h0000, \h0040>>,
  <<"TpmRc", "RC_S", \h0000, \h0800>>
>>
T_TpmEo == <<
  <<"TpmEo", "Eq", \h0000, \h0000>>,
  <<"TpmEo", "Neq", \h0000, \h0001>>,
  <<"TpmEo", "SignedGT", \h0000, \h0002>>,
  <<"TpmEo", "UnsignedGT", \h0000, \h0003>>,
  <<"TpmEo", "SignedLT", \h0000, \h0004>>,
  <<"TpmEo", "UnsignedLT", \h0000, \h0005>>,
  <<"TpmEo", "SignedGE", \h0000, \h0006>>,
  <<"TpmEo", "UnsignedGE", \h0000, \h0007>>,
  <<"TpmEo", "SignedLE", \h0000, \h0008>>,
  <<"TpmEo", "UnsignedLE", \h0000, \h0009>>,
  <<"TpmEo", "BitSet", \h0000, \h000A>>,
  <<"TpmEo", "BitClear", \h0000, \h000B>>
>>
T_TpmSt == <<
  <<"TpmSt", "RspCommand", \h0000, \h00C4>>,
  <<"TpmSt", "Null", \h0000, \h8000>>,
  <<"TpmSt", "NoSessions", \h0000, \h8001>>,
  <<"TpmSt", "Sessions", \h0000, \h8002>>,
  <<"TpmSt", "AttestNV", \h0000, \h8014>>,
  <<"TpmSt", "AttestCommandAudit", \h0000, \h8015>>,
  <<"TpmSt", "AttestSessionAudit", \h0000, \h8016>>,
  <<"TpmSt", "AttestCertify", \h0000, \h8017>>,
  <<"TpmSt", "AttestQuote", \h0000, \h8018>>,
  <<"TpmSt", "AttestTime", \h0000, \h8019>>,
  <<"TpmSt", "AttestCreation", \h0000, \h801A>>,
  <<"TpmSt", "AttestNVDigest", \h0000, \h801C>>,
  <<"TpmSt", "Creation", \h0000, \h8021>>,
  <<"TpmSt", "Verified", \h0000, \h8022>>,
  <<"TpmSt", "AuthSecret", \h0000, \h8023>>,
  <<"TpmSt", "HashCheck", \h0000, \h8024>>,
  <<"TpmSt", "AuthSigned", \h0000, \h8025>>,
  <<"TpmSt", "FuManifest", \h0000, \h8029>>
>>
T_TpmSu == <<
  <<"TpmSu", "Clear", \h0000, \h0000>>,
  <<"TpmSu", "State", \h0000, \h0001>>
>>
T_TpmSe == <<
  <<"TpmSe", "HMAC", \h0000, \h0000>>,
  <<"TpmSe", "Policy", \h0000, \h0001>>,
  <<"TpmSe", "Trial", \h0000, \h0003>>
>>
T_TpmCap == <<
  <<"TpmCap", "Algs", \h0000, \h0000>>,
  <<"TpmCap", "Handles", \h0000, \h0001>>,
  <<"TpmCap", "Commands", \h0000, \h0002>>,
  <<"TpmCap", "PPCommands", \h0000, \h0003>>,
  <<"TpmCap", "AuditCommands", \h0000, \h0004>>,
  <<"TpmCap", "PCRs", \h0000, \h0005>>,
  <<"TpmCap", "TPMProperties", \h0000, \h0006>>,
  <<"TpmCap", "PCRProperties", \h0000, \h0007>>,
  <<"TpmCap", "ECCCurves", \h0000, \h0008>>,
  <<"TpmCap", "AuthPolicies", \h0000, \h0009>>,
  <<"TpmCap", "ACT", \h0000, \h000A>>
>>
T_TpmPt == <<
  <<"TpmPt", "FamilyIndicator", \h0000, \h0100>>,
  <<"TpmPt", "Level", \h0000, \h0101>>,
  <<"TpmPt", "Revision", \h0000, \h0102>>,
  <<"TpmPt", "DayofYear", \h0000, \h0103>>,
  <<"TpmPt", "Year", \h0000, \h0104>>,
  <<"TpmPt", "Manufacturer", \h0000, \h0105>>,
  <<"TpmPt", "VendorString1", \h0000, \h0106>>,
  <<"TpmPt", "VendorString2", \h0000, \h0107>>,
  <<"TpmPt", "VendorString3", \h0000, \h0108>>,
  <<"TpmPt", "VendorString4", \h0000, \h0109>>,
  <<"TpmPt", "VendorTPMType", \h0000, \h010A>>,
  <<"TpmPt", "FirmwareVersion1", \h0000, \h010B>>,
  <<"TpmPt", "FirmwareVersion2", \h0000, \h010C>>,
  <<"TpmPt", "InputBuffer", \h0000, \h010D>>,
  <<"TpmPt", "HRTransientMin", \h0000, \h010E>>,
  <<"TpmPt", "HRPersistentMin", \h0000, \h010F>>,
  <<"TpmPt", "HRLoadedMin", \h0000, \h0110>>,
  <<"TpmPt", "ActiveSessionsMax", \h0000, \h0111>>,
  <<"TpmPt", "PCRCount", \h0000, \h0112>>,
  <<"TpmPt", "PCRSelectMin", \h0000, \h0113>>,
  <<"TpmPt", "ContextGapMax", \h0000, \h0114>>,
  <<"TpmPt", "NVCountersMax", \h0000, \h0116>>,
  <<"TpmPt", "NVIndexMax", \h0000, \h0117>>,
  <<"TpmPt", "Memory", \h0000, \h0118>>,
  <<"TpmPt", "ClockUpdate", \h0000, \h0119>>,
  <<"TpmPt", "ContextHash", \h0000, \h011A>>,
  <<"TpmPt", "ContextSym", \h0000, \h011B>>,
  <<"TpmPt", "ContextSymSize", \h0000, \h011C>>,
  <<"TpmPt", "OrderlyCount", \h0000, \h011D>>,
  <<"TpmPt", "MaxCommandSize", \h0000, \h011E>>,
  <<"TpmPt", "MaxResponseSize", \h0000, \h011F>>,
  <<"TpmPt", "MaxDigest", \h0000, \h0120>>,
  <<"TpmPt", "MaxObjectContext", \h0000, \h0121>>,
  <<"TpmPt", "MaxSessionContext", \h0000, \h0122>>,
  <<"TpmPt", "PSFamilyIndicator", \h0000, \h0123>>,
  <<"TpmPt", "PSLevel", \h0000, \h0124>>,
  <<"TpmPt", "PSRevision", \h0000, \h0125>>,
  <<"TpmPt", "PSDayOfYear", \h0000, \h0126>>,
  <<"TpmPt", "PSYear", \h0000, \h0127>>,
  <<"TpmPt", "SplitMax", \h0000, \h0128>>,
  <<"TpmPt", "TotalCommands", \h0000, \h0129>>,
  <<"TpmPt", "LibraryCommands", \h0000, \h012A>>,
  <<"TpmPt", "VendorCommands", \h0000, \h012B>>,
  <<"TpmPt", "NVBufferMax", \h0000, \h012C>>,
  <<"TpmPt", "Modes", \h0000, \h012D>>,
  <<"TpmPt", "MaxCapBuffer", \h0000, \h012E>>,
  <<"TpmPt", "Permanent", \h0000, \h0200>>,
  <<"TpmPt", "StartupClear", \h0000, \h0201>>,
  <<"TpmPt", "HRNVIndex", \h0000, \h0202>>,
  <<"TpmPt", "HRLoaded", \h0000, \h0203>>,
  <<"TpmPt", "HRLoadedAvail", \h0000, \h0204>>,
  <<"TpmPt", "HRActive", \h0000, \h0205>>,
  <<"TpmPt", "HRActiveAvail", \h0000, \h0206>>,
  <<"TpmPt", "HRTransientAvail", \h0000, \h0207>>,
  <<"TpmPt", "HRPersistent", \h0000, \h0208>>,
  <<"TpmPt", "HRPersistentAvail", \h0000, \h0209>>,
  <<"TpmPt", "NVCounters", \h0000, \h020A>>,
  <<"TpmPt", "NVCountersAvail", \h0000, \h020B>>,
  <<"TpmPt", "AlgorithmSet", \h0000, \h020C>>,
  <<"TpmPt", "LoadedCurves", \h0000, \h020D>>,
  <<"TpmPt", "LockoutCounter", \h0000, \h020E>>,
  <<"TpmPt", "MaxAuthFail", \h0000, \h020F>>,
  <<"TpmPt", "LockoutInterval", \h0000, \h0210>>,
  <<"TpmPt", "LockoutRecovery", \h0000, \h0211>>,
  <<"TpmPt", "NVWriteRecovery", \h0000, \h0212>>,
  <<"TpmPt", "AuditCounter0", \h0000, \h0213>>,
  <<"TpmPt", "AuditCounter1", \h0000, \h0214>>
>>
T_TpmPtPcr == <<
  <<"TpmPtPcr", "Save", \h0000, \h0000>>,
  <<"TpmPtPcr", "ExtendL0", \h0000, \h0001>>,
  <<"TpmPtPcr", "ResetL0", \h0000, \h0002>>,
  <<"TpmPtPcr", "ExtendL1", \h0000, \h0003>>,
  <<"TpmPtPcr", "ResetL1", \h0000, \h0004>>,
  <<"TpmPtPcr", "ExtendL2", \h0000, \h0005>>,
  <<"TpmPtPcr", "ResetL2", \h0000, \h0006>>,
  <<"TpmPtPcr", "ExtendL3", \h0000, \h0007>>,
  <<"TpmPtPcr", "ResetL3", \h0000, \h0008>>,
  <<"TpmPtPcr", "ExtendL4", \h0000, \h0009>>,
  <<"TpmPtPcr", "ResetL4", \h0000, \h000A>>,
  <<"TpmPtPcr", "NoIncrement", \h0000, \h0011>>,
  <<"TpmPtPcr", "DRTMRest", \h0000, \h0012>>,
  <<"TpmPtPcr", "Policy", \h0000, \h0013>>,
  <<"TpmPtPcr", "Auth", \h0000, \h0014>>
>>
T_TpmHt == <<
  <<"TpmHt", "PCR", \h0000, \h0000>>,
  <<"TpmHt", "NVIndex", \h0000, \h0001>>,
  <<"TpmHt", "HMACSession", \h0000, \h0002>>,
  <<"TpmHt", "PolicySession", \h0000, \h0003>>,
  <<"TpmHt", "Permanent", \h0000, \h0040>>,
  <<"TpmHt", "Transient", \h0000, \h0080>>,
  <<"TpmHt", "Persistent", \h0000, \h0081>>,
  <<"TpmHt", "AC", \h0000, \h0090>>
>>
T_TpmHandle == <<
  <<"TpmHandle", "RHOwner", \h4000, \h0001>>,
  <<"TpmHandle", "RHNull", \h4000, \h0007>>,
  <<"TpmHandle", "RSPW", \h4000, \h0009>>,
  <<"TpmHandle", "RHLockout", \h4000, \h000A>>,
  <<"TpmHandle", "RHEndorsement", \h4000, \h000B>>,
  <<"TpmHandle", "RHPlatform", \h4000, \h000C>>,
  <<"TpmHandle", "RHPlatformNV", \h4000, \h000D>>
>>
T_TpmNt == <<
  <<"TpmNt", "Ordinary", \h0000, \h0000>>,
  <<"TpmNt", "Counter", \h0000, \h0001>>,
  <<"TpmNt", "Bits", \h0000, \h0002>>,
  <<"TpmNt", "Extend", \h0000, \h0004>>,
  <<"TpmNt", "PinFail", \h0000, \h0008>>,
  <<"TpmNt", "PinPass", \h0000, \h0009>>
>>
T_TpmGenerated == <<
  <<"TpmGenerated", "VALUE", \hFF54, \h4347>>
>>
T_TpmiAlgHash == <<
  <<"TpmiAlgHash", "SHA1", \h0000, \h0004>>,
  <<"TpmiAlgHash", "SHA256", \h0000, \h000B>>,
  <<"TpmiAlgHash", "SHA384", \h0000, \h000C>>,
  <<"TpmiAlgHash", "SHA512", \h0000, \h000D>>,
  <<"TpmiAlgHash", "SM3256", \h0000, \h0012>>,
  <<"TpmiAlgHash", "SHA3256", \h0000, \h0027>>,
  <<"TpmiAlgHash", "SHA3384", \h0000, \h0028>>,
  <<"TpmiAlgHash", "SHA3512", \h0000, \h0029>>
>>
T_TpmiAlgKdf == <<
  <<"TpmiAlgKdf", "MGF1", \h0000, \h0007>>,
  <<"TpmiAlgKdf", "KDF1SP80056A", \h0000, \h0020>>,
  <<"TpmiAlgKdf", "KDF2", \h0000, \h0021>>,
  <<"TpmiAlgKdf", "KDF1SP800108", \h0000, \h0022>>
>>
T_TpmiAlgPublic == <<
  <<"TpmiAlgPublic", "RSA", \h0000, \h0001>>,
  <<"TpmiAlgPublic", "KeyedHash", \h0000, \h0008>>,
  <<"TpmiAlgPublic", "ECC", \h0000, \h0023>>,
  <<"TpmiAlgPublic", "SymCipher", \h0000, \h0025>>
>>
T_TpmiAlgSymMode == <<
  <<"TpmiAlgSymMode", "CMAC", \h0000, \h003F>>,
  <<"TpmiAlgSymMode", "CTR", \h0000, \h0040>>,
  <<"TpmiAlgSymMode", "OFB", \h0000, \h0041>>,
  <<"TpmiAlgSymMode", "CBC", \h0000, \h0042>>,
  <<"TpmiAlgSymMode", "CFB", \h0000, \h0043>>,
  <<"TpmiAlgSymMode", "ECB", \h0000, \h0044>>
>>
T_TpmiAlgSymObject == <<
  <<"TpmiAlgSymObject", "TDES", \h0000, \h0003>>,
  <<"TpmiAlgSymObject", "AES", \h0000, \h0006>>,
  <<"TpmiAlgSymObject", "SM4", \h0000, \h0013>>,
  <<"TpmiAlgSymObject", "Camellia", \h0000, \h0026>>
>>
T_TpmiAlgKeyedhashScheme == <<
  <<"TpmiAlgKeyedhashScheme", "HMAC", \h0000, \h0005>>,
  <<"TpmiAlgKeyedhashScheme", "XOR", \h0000, \h000A>>
>>
T_TpmiAlgRsaScheme == <<
  <<"TpmiAlgRsaScheme", "RSAPSS", \h0000, \h0016>>,
  <<"TpmiAlgRsaScheme", "RSASSA", \h0000, \h0014>>,
  <<"TpmiAlgRsaScheme", "ECDSA", \h0000, \h0018>>,
  <<"TpmiAlgRsaScheme", "ECDAA", \h0000, \h001A>>,
  <<"TpmiAlgRsaScheme", "SM2", \h0000, \h001B>>,
  <<"TpmiAlgRsaScheme", "ECSchnorr", \h0000, \h001C>>,
  <<"TpmiAlgRsaScheme", "RSAES", \h0000, \h0015>>,
  <<"TpmiAlgRsaScheme", "OAEP", \h0000, \h0017>>
>>
T_TpmiAlgSigScheme == <<
  <<"TpmiAlgSigScheme", "RSAPSS", \h0000, \h0016>>,
  <<"TpmiAlgSigScheme", "RSASSA", \h0000, \h0014>>,
  <<"TpmiAlgSigScheme", "ECDSA", \h0000, \h0018>>,
  <<"TpmiAlgSigScheme", "ECDAA", \h0000, \h001A>>,
  <<"TpmiAlgSigScheme", "SM2", \h0000, \h001B>>,
  <<"TpmiAlgSigScheme", "ECSchnorr", \h0000, \h001C>>,
  <<"TpmiAlgSigScheme", "HMAC", \h0000, \h0005>>
>>
T_TpmiAlgEccScheme == <<
  <<"TpmiAlgEccScheme", "RSAPSS", \h0000, \h0016>>,
  <<"TpmiAlgEccScheme", "RSASSA", \h0000, \h0014>>,
  <<"TpmiAlgEccScheme", "ECDSA", \h0000, \h0018>>,
  <<"TpmiAlgEccScheme", "ECDAA", \h0000, \h001A>>,
  <<"TpmiAlgEccScheme", "SM2", \h0000, \h001B>>,
  <<"TpmiAlgEccScheme", "ECSchnorr", \h0000, \h001C>>,
  <<"TpmiAlgEccScheme", "ECDH", \h0000, \h0019>>,
  <<"TpmiAlgEccScheme", "ECMQV", \h0000, \h001D>>
>>
T_TpmiAlgAsymScheme == <<
  <<"TpmiAlgAsymScheme", "SM2", \h0000, \h001B>>,
  <<"TpmiAlgAsymScheme", "ECDH", \h0000, \h0019>>,
  <<"TpmiAlgAsymScheme", "ECMQV", \h0000, \h001D>>,
  <<"TpmiAlgAsymScheme", "RSAPSS", \h0000, \h0016>>,
  <<"TpmiAlgAsymScheme", "RSASSA", \h0000, \h0014>>,
  <<"TpmiAlgAsymScheme", "ECDSA", \h0000, \h0018>>,
  <<"TpmiAlgAsymScheme", "ECDAA", \h0000, \h001A>>,
  <<"TpmiAlgAsymScheme", "ECSchnorr", \h0000, \h001C>>,
  <<"TpmiAlgAsymScheme", "RSAES", \h0000, \h0015>>,
  <<"TpmiAlgAsymScheme", "OAEP", \h0000, \h0017>>
>>
T_TpmiYesNo == <<
  <<"TpmiYesNo", "NO", \h0000, \h0000>>,
  <<"TpmiYesNo", "YES", \h0000, \h0001>>
>>
T_TpmiStAttest == <<
  <<"TpmiStAttest", "AttestCertify", \h0000, \h8017>>,
  <<"TpmiStAttest", "AttestQuote", \h0000, \h8018>>,
  <<"TpmiStAttest", "AttestSessionAudit", \h0000, \h8016>>,
  <<"TpmiStAttest", "AttestCommandAudit", \h0000, \h8015>>,
  <<"TpmiStAttest", "AttestTime", \h0000, \h8019>>,
  <<"TpmiStAttest", "AttestCreation", \h0000, \h801A>>,
  <<"TpmiStAttest", "AttestNV", \h0000, \h8014>>,
  <<"TpmiStAttest", "AttestNVDigest", \h0000, \h801C>>
>>
T_TpmiStCommandTag == <<
  <<"TpmiStCommandTag", "NoSessions", \h0000, \h8001>>,
  <<"TpmiStCommandTag", "Sessions", \h0000, \h8002>>
>>
T_TpmaLocality == <<
  <<"TpmaLocality", "LOC_ZERO", \h0000, \h0001>>,
  <<"TpmaLocality", "LOC_ONE", \h0000, \h0002>>,
  <<"TpmaLocality", "LOC_TWO", \h0000, \h0004>>,
  <<"TpmaLocality", "LOC_THREE", \h0000, \h0008>>,
  <<"TpmaLocality", "LOC_FOUR", \h0000, \h0010>>
>>
T_TpmaNv == <<
  <<"TpmaNv", "PPWRITE", \h0000, \h0001>>,
  <<"TpmaNv", "OWNERWRITE", \h0000, \h0002>>,
  <<"TpmaNv", "AUTHWRITE", \h0000, \h0004>>,
  <<"TpmaNv", "POLICYWRITE", \h0000, \h0008>>,
  <<"TpmaNv", "POLICY_DELETE", \h0000, \h0400>>,
  <<"TpmaNv", "WRITELOCKED", \h0000, \h0800>>,
  <<"TpmaNv", "WRITEALL", \h0000, \h1000>>,
  <<"TpmaNv", "WRITEDEFINE", \h0000, \h2000>>,
  <<"TpmaNv", "WRITE_STCLEAR", \h0000, \h4000>>,
  <<"TpmaNv", "GLOBALLOCK", \h0000, \h8000>>,
  <<"TpmaNv", "PPREAD", \h0001, \h0000>>,
  <<"TpmaNv", "OWNERREAD", \h0002, \h0000>>,
  <<"TpmaNv", "AUTHREAD", \h0004, \h0000>>,
  <<"TpmaNv", "POLICYREAD", \h0008, \h0000>>,
  <<"TpmaNv", "NO_DA", \h0200, \h0000>>,
  <<"TpmaNv", "ORDERLY", \h0400, \h0000>>,
  <<"TpmaNv", "CLEAR_STCLEAR", \h0800, \h0000>>,
  <<"TpmaNv", "READLOCKED", \h1000, \h0000>>,
  <<"TpmaNv", "WRITTEN", \h2000, \h0000>>,
  <<"TpmaNv", "PLATFORMCREATE", \h4000, \h0000>>,
  <<"TpmaNv", "READ_STCLEAR", \h8000, \h0000>>
>>
T_TpmaObject == <<
  <<"TpmaObject", "FIXED_TPM", \h0000, \h0002>>,
  <<"TpmaObject", "ST_CLEAR", \h0000, \h0004>>,
  <<"TpmaObject", "FIXED_PARENT", \h0000, \h0010>>,
  <<"TpmaObject", "SENSITIVE_DATA_ORIGIN", \h0000, \h0020>>,
  <<"TpmaObject", "USER_WITH_AUTH", \h0000, \h0040>>,
  <<"TpmaObject", "ADMIN_WITH_POLICY", \h0000, \h0080>>,
  <<"TpmaObject", "NO_DA", \h0000, \h0400>>,
  <<"TpmaObject", "ENCRYPTED_DUPLICATION", \h0000, \h0800>>,
  <<"TpmaObject", "RESTRICTED", \h0001, \h0000>>,
  <<"TpmaObject", "DECRYPT", \h0002, \h0000>>,
  <<"TpmaObject", "SIGN_ENCRYPT", \h0004, \h0000>>,
  <<"TpmaObject", "X509_SIGN", \h0008, \h0000>>
>>
T_TpmaAlgorithm == <<
  <<"TpmaAlgorithm", "ASYMMETRIC", \h0000, \h0001>>,
  <<"TpmaAlgorithm", "SYMMETRIC", \h0000, \h0002>>,
  <<"TpmaAlgorithm", "HASH", \h0000, \h0004>>,
  <<"TpmaAlgorithm", "OBJECT", \h0000, \h0008>>,
  <<"TpmaAlgorithm", "SIGNING", \h0000, \h0100>>,
  <<"TpmaAlgorithm", "ENCRYPTING", \h0000, \h0200>>,
  <<"TpmaAlgorithm", "METHOD", \h0000, \h0400>>
>>
T_TpmaSession == <<
  <<"TpmaSession", "CONTINUE_SESSION", \h0000, \h0001>>,
  <<"TpmaSession", "AUDIT_EXCLUSIVE", \h0000, \h0002>>,
  <<"TpmaSession", "AUDIT_RESET", \h0000, \h0004>>,
  <<"TpmaSession", "DECRYPT", \h0000, \h0020>>,
  <<"TpmaSession", "ENCRYPT", \h0000, \h0040>>,
  <<"TpmaSession", "AUDIT", \h0000, \h0080>>
>>
T_TpmaCc == <<
  <<"TpmaCc", "NV", \h0040, \h0000>>,
  <<"TpmaCc", "EXTENSIVE", \h0080, \h0000>>,
  <<"TpmaCc", "FLUSHED", \h0100, \h0000>>,
  <<"TpmaCc", "R_HANDLE", \h1000, \h0000>>,
  <<"TpmaCc", "V", \h2000, \h0000>>
>>
T_Alg == <<
  <<"Alg", "Rsa", \h0000, \h0001>>,
  <<"Alg", "Tdes", \h0000, \h0003>>,
  <<"Alg", "Sha1", \h0000, \h0004>>,
  <<"Alg", "Hmac", \h0000, \h0005>>,
  <<"Alg", "Aes", \h0000, \h0006>>,
  <<"Alg", "Mgf1", \h0000, \h0007>>,
  <<"Alg", "KeyedHash", \h0000, \h0008>>,
  <<"Alg", "Null", \h0000, \h0010>>,
  <<"Alg", "Xor", \h0000, \h000A>>,
  <<"Alg", "Sha256", \h0000, \h000B>>,
  <<"Alg", "Sha384", \h0000, \h000C>>,
  <<"Alg", "Sha512", \h0000, \h000D>>,
  <<"Alg", "Sm3_256", \h0000, \h0012>>,
  <<"Alg", "Sm4", \h0000, \h0013>>,
  <<"Alg", "RsaSsa", \h0000, \h0014>>,
  <<"Alg", "RsaEs", \h0000, \h0015>>,
  <<"Alg", "RsaPss", \h0000, \h0016>>,
  <<"Alg", "Oaep", \h0000, \h0017>>,
  <<"Alg", "Ecdsa", \h0000, \h0018>>,
  <<"Alg", "Ecdh", \h0000, \h0019>>,
  <<"Alg", "Ecdaa", \h0000, \h001A>>,
  <<"Alg", "Sm2", \h0000, \h001B>>,
  <<"Alg", "EcSchnorr", \h0000, \h001C>>,
  <<"Alg", "Ecmqv", \h0000, \h001D>>,
  <<"Alg", "Kdf1Sp800_56A", \h0000, \h0020>>,
  <<"Alg", "Kdf2", \h0000, \h0021>>,
  <<"Alg", "Kdf1Sp800_108", \h0000, \h0022>>,
  <<"Alg", "Ecc", \h0000, \h0023>>,
  <<"Alg", "SymCipher", \h0000, \h0025>>,
  <<"Alg", "Camellia", \h0000, \h0026>>,
  <<"Alg", "Sha3_256", \h0000, \h0027>>,
  <<"Alg", "Sha3_384", \h0000, \h0028>>,
  <<"Alg", "Sha3_512", \h0000, \h0029>>,
  <<"Alg", "Ctr", \h0000, \h0040>>,
  <<"Alg", "Ofb", \h0000, \h0041>>,
  <<"Alg", "Cbc", \h0000, \h0042>>,
  <<"Alg", "Cfb", \h0000, \h0043>>,
  <<"Alg", "Ecb", \h0000, \h0044>>
>>
T_TpmHc == <<
  <<"TpmHc", "HmacSessionFirst", \h0200, \h0000>>,
  <<"TpmHc", "HmacSessionLast", \h0200, \h003F>>,
  <<"TpmHc", "PolicySessionFirst", \h0300, \h0000>>,
  <<"TpmHc", "PolicySessionLast", \h0300, \h003F>>,
  <<"TpmHc", "PersistentFirst", \h8100, \h0000>>,
  <<"TpmHc", "PersistentLast", \h81FF, \hFFFF>>,
  <<"TpmHc", "NVIndexFirst", \h0100, \h0000>>,
  <<"TpmHc", "NVIndexLast", \h01FF, \hFFFF>>
>>
T_DigestSize == <<
  <<"DigestSize", "SHA", \h0000, \h0014>>,
  <<"DigestSize", "SHA1", \h0000, \h0014>>,
  <<"DigestSize", "SHA256", \h0000, \h0020>>,
  <<"DigestSize", "SHA384", \h0000, \h0030>>,
  <<"DigestSize", "SHA512", \h0000, \h0040>>,
  <<"DigestSize", "SM3_256", \h0000, \h0020>>
>>
T_tpm2_TpmiAlgHash == <<
  <<"tpm2.TpmiAlgHash", "Sha1", \h0000, \h0004>>,
  <<"tpm2.TpmiAlgHash", "Sha256", \h0000, \h000B>>,
  <<"tpm2.TpmiAlgHash", "Sha384", \h0000, \h000C>>,
  <<"tpm2.TpmiAlgHash", "Sha512", \h0000, \h000D>>,
  <<"tpm2.TpmiAlgHash", "Sm3_256", \h0000, \h0012>>,
  <<"tpm2.TpmiAlgHash", "Sha3_256", \h0000, \h0027>>,
  <<"tpm2.TpmiAlgHash", "Sha3_384", \h0000, \h0028>>,
  <<"tpm2.TpmiAlgHash", "Sha3_512", \h0000, \h0029>>
>>
T_CMD_CODE == <<
  <<"CMD_CODE", "StartupCmd", \h0000, \h0144>>,
  <<"CMD_CODE", "GetRandomCmd", \h0000, \h017B>>,
  <<"CMD_CODE", "GetCapabilityCmd", \h0000, \h017A>>,
  <<"CMD_CODE", "PcrReadCmd", \h0000, \h017E>>
>>
Table == T_TpmAlgId \o T_TpmEccCurve \o T_TpmCc \o T_TpmRc \o T_TpmEo \o T_TpmSt \o T_TpmSu \o T_TpmSe \o T_TpmCap \o T_TpmPt \o T_TpmPtPcr \o T_TpmHt \o T_TpmHandle \o T_TpmNt \o T_TpmGenerated \o T_TpmiAlgHash \o T_TpmiAlgKdf \o T_TpmiAlgPublic \o T_TpmiAlgSymMode \o T_TpmiAlgSymObject \o T_TpmiAlgKeyedhashScheme \o T_TpmiAlgRsaScheme \o T_TpmiAlgSigScheme \o T_TpmiAlgEccScheme \o T_TpmiAlgAsymScheme \o T_TpmiYesNo \o T_TpmiStAttest \o T_TpmiStCommandTag \o T_TpmaLocality \o T_TpmaNv \o T_TpmaObject \o T_TpmaAlgorithm \o T_TpmaSession \o T_TpmaCc \o T_Alg \o T_TpmHc \o T_DigestSize \o T_tpm2_TpmiAlgHash \o T_CMD_CODE
=============================================================================
