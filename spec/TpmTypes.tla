---------------------------- MODULE TpmTypes ----------------------------
(* TPM 2.0 Part 2 structures as wire grammar terms.  Numbers are those of the
   TCG specification and of the implementation limits the crate documents;
   capacities that the crate derives from in-memory sizes are a parameter
   (Cap) and are only required to be large enough.                          *)
EXTENDS Wire, Json, IOUtils, FiniteSets

CapsLog == ndJsonDeserialize(IOEnv.VERIF_CAPS)
CapFun  == [n \in {CapsLog[x].t : x \in 1..Len(CapsLog)} |->
              (CHOOSE r \in {CapsLog[x] : x \in 1..Len(CapsLog)} : r.t = n).cap]
Cap(n)  == CapFun[n]

\* TPM_ALG_ID values used as selectors
RSA == 1  SHA1 == 4  HMAC == 5  AES == 6  MGF1 == 7  KEYEDHASH == 8  XOR == 10
SHA256 == 11  SHA384 == 12  SHA512 == 13  NUL == 16  SM3256 == 18  SM4 == 19
RSASSA == 20  RSAES == 21  RSAPSS == 22  OAEP == 23  ECDSA == 24  ECDH == 25
ECDAA == 26  SM2 == 27  ECSCHNORR == 28  ECMQV == 29  KDF1_SP800_56A == 32
KDF2 == 33  KDF1_SP800_108 == 34  ECC == 35  SYMCIPHER == 37  CAMELLIA == 38

Empty == St(<<>>)
U8 == U(1)  U16 == U(2)  U32 == U(4)  U64 == U(8)
Digest == B2(64)
Data == B2(64)
Name == B2(66)
EccParam == B2(128)
SensData == B2(256)

ClockInfo == St(<< <<"clock", U64>>, <<"reset_count", U32>>, <<"restart_count", U32>>, <<"safe", U8>> >>)
PcrSel == St(<< <<"hash", U16>>, <<"", BLst(1, 4, "sizeof_select", "pcr_select")>> >>)
PcrSelL == Lst(4, 16, PcrSel)
HaV == << V("Sha1", SHA1, <<Raw(20)>>), V("Sha256", SHA256, <<Raw(32)>>), V("Sha384", SHA384, <<Raw(48)>>),
          V("Sha512", SHA512, <<Raw(64)>>), V("Sm3_256", SM3256, <<Raw(32)>>) >>
Ha == Un(2, HaV)
Quote == St(<< <<"pcr_select", PcrSelL>>, <<"pcr_digest", Digest>> >>)
Creation == St(<< <<"object_name", Name>>, <<"creation_hash", Digest>> >>)
Certify == St(<< <<"name", Name>>, <<"qualified_name", Name>> >>)
CmdAudit == St(<< <<"audit_counter", U64>>, <<"digest_alg", U16>>, <<"audit_digest", Digest>>, <<"command_digest", Digest>> >>)
SessAudit == St(<< <<"exclusive_session", U8>>, <<"session_digest", Digest>> >>)
Time == St(<< <<"time", U64>>, <<"clock_info", ClockInfo>> >>)
TimeAttest == St(<< <<"time", Time>>, <<"firmware_version", U64>> >>)
NvCertify == St(<< <<"index_name", Name>>, <<"offset", U16>>, <<"nv_contents", B2(2048)>> >>)
AttestV == << V("Certify", 32791, <<Certify>>), V("Creation", 32794, <<Creation>>), V("Quote", 32792, <<Quote>>),
              V("CommandAudit", 32789, <<CmdAudit>>), V("SessionAudit", 32790, <<SessAudit>>),
              V("Time", 32793, <<TimeAttest>>), V("Nv", 32788, <<NvCertify>>) >>
Attest == Spl(<< <<"magic", U32>> >>, "attested", 2,
              << <<"qualified_signer", Name>>, <<"extra_data", Data>>, <<"clock_info", ClockInfo>>, <<"firmware_version", U64>> >>,
              AttestV)
Derive == St(<< <<"label", B2(32)>>, <<"context", B2(32)>> >>)
SensCreate == St(<< <<"user_auth", Digest>>, <<"data", SensData>> >>)
EccPoint == St(<< <<"x", EccParam>>, <<"y", EccParam>> >>)
SHash == St(<< <<"hash_alg", U16>> >>)
SEcdaa == St(<< <<"hash_alg", U16>>, <<"count", U16>> >>)
SXor == St(<< <<"hash_alg", U16>>, <<"kdf", U16>> >>)
KeyedHashScheme == Un(2, << V("Hmac", HMAC, <<SHash>>), V("ExclusiveOr", XOR, <<SXor>>), V("Null", NUL, <<Empty>>) >>)
KeyedHashParms == St(<< <<"scheme", KeyedHashScheme>> >>)
SymDef == Un(2, << V("Aes", AES, <<U16, U16>>), V("Sm4", SM4, <<U16, U16>>), V("Camellia", CAMELLIA, <<U16, U16>>),
                   V("ExclusiveOr", XOR, <<U16, Empty>>), V("Null", NUL, <<Empty, Empty>>) >>)
SymParms == St(<< <<"sym", SymDef>> >>)
SigRsa == St(<< <<"hash", U16>>, <<"sig", B2(512)>> >>)
SigEcc == St(<< <<"hash", U16>>, <<"signature_r", EccParam>>, <<"signature_s", EccParam>> >>)
Signature == Un(2, << V("Rsassa", RSASSA, <<SigRsa>>), V("Rsapss", RSAPSS, <<SigRsa>>), V("Ecdsa", ECDSA, <<SigEcc>>),
                      V("Ecdaa", ECDAA, <<SigEcc>>), V("Sm2", SM2, <<SigEcc>>), V("Ecschnorr", ECSCHNORR, <<SigEcc>>),
                      V("Hmac", HMAC, <<Ha>>), V("Null", NUL, <<Empty>>) >>)
VRsassa == V("Rsassa", RSASSA, <<SHash>>)  VRsapss == V("Rsapss", RSAPSS, <<SHash>>)
VEcdsa == V("Ecdsa", ECDSA, <<SHash>>)     VEcdaa == V("Ecdaa", ECDAA, <<SEcdaa>>)
VSm2 == V("Sm2", SM2, <<SHash>>)           VEcschnorr == V("Ecschnorr", ECSCHNORR, <<SHash>>)
VRsaes == V("Rsaes", RSAES, <<Empty>>)     VOaep == V("Oaep", OAEP, <<SHash>>)
VEcdh == V("Ecdh", ECDH, <<SHash>>)        VEcmqv == V("Ecmqv", ECMQV, <<SHash>>)
VNull == V("Null", NUL, <<Empty>>)
SigScheme == Un(2, << VRsassa, VRsapss, VEcdsa, VEcdaa, VSm2, VEcschnorr, V("Hmac", HMAC, <<SHash>>), VNull >>)
RsaScheme == Un(2, << VRsapss, VRsassa, VEcdsa, VEcdaa, VSm2, VEcschnorr, VRsaes, VOaep, VNull >>)
EccScheme == Un(2, << VRsapss, VRsassa, VEcdsa, VEcdaa, VSm2, VEcschnorr, VEcdh, VEcmqv, VNull >>)
AsymScheme == Un(2, << VEcdh, VEcmqv, VSm2, VRsapss, VRsassa, VEcdsa, VEcdaa, VEcschnorr, VRsaes, VOaep, VNull >>)
KdfScheme == Un(2, << V("Mgf1", MGF1, <<SHash>>), V("Kdf1Sp800_56a", KDF1_SP800_56A, <<SHash>>), V("Kdf2", KDF2, <<SHash>>),
                      V("Kdf1Sp800_108", KDF1_SP800_108, <<SHash>>), VNull >>)
RsaParms == St(<< <<"symmetric", SymDef>>, <<"scheme", RsaScheme>>, <<"key_bits", U16>>, <<"exponent", U32>> >>)
EccParms == St(<< <<"symmetric", SymDef>>, <<"scheme", EccScheme>>, <<"curve_id", U16>>, <<"kdf", KdfScheme>> >>)
AsymParms == St(<< <<"symmetric", SymDef>>, <<"scheme", AsymScheme>> >>)
PubV == << V("KeyedHash", KEYEDHASH, <<KeyedHashParms, Digest>>), V("Sym", SYMCIPHER, <<SymParms, Digest>>),
           V("Rsa", RSA, <<RsaParms, B2(512)>>), V("Ecc", ECC, <<EccParms, EccPoint>>) >>
Public == Spl(<<>>, "parms_and_id", 2,
              << <<"name_alg", U16>>, <<"object_attributes", U32>>, <<"auth_policy", Digest>> >>, PubV)
SensV == << V("Rsa", RSA, <<B2(256)>>), V("Ecc", ECC, <<EccParam>>), V("Bits", KEYEDHASH, <<SensData>>),
            V("Sym", SYMCIPHER, <<B2(32)>>), V("Any", NUL, <<B2(1280)>>) >>
Sensitive == Spl(<<>>, "sensitive", 2, << <<"auth_value", Digest>>, <<"seed_value", Digest>> >>, SensV)
AlgProp == St(<< <<"alg", U16>>, <<"alg_properties", U32>> >>)
TagProp == St(<< <<"property", U32>>, <<"value", U32>> >>)
TagPcr == Opq(St(<< <<"tag", U32>>, <<"", BLst(1, 4, "n", "s")>> >>))
TagPol == Opq(St(<< <<"handle", U32>>, <<"policy_hash", Ha>> >>))
AlgPropL == Lst(4, 127, AlgProp)
HandleL == Lst(4, 254, U32)
CcaL == Lst(4, 254, U32)
CcL == Lst(4, 254, U32)
TagPropL == Lst(4, 127, TagProp)
TagPcrL == Lst(4, 84, TagPcr)
CurveL == Lst(4, 508, U16)
TagPolL == Lst(4, 14, TagPol)
DigestL == Lst(4, 8, Digest)
CapData == Un(4, << V("Algorithms", 0, <<AlgPropL>>), V("Handles", 1, <<HandleL>>), V("Command", 2, <<Opq(CcaL)>>),
                    V("PpCommands", 3, <<CcL>>), V("AuditCommands", 4, <<CcL>>), V("AssignedPcr", 5, <<PcrSelL>>),
                    V("TpmProperties", 6, <<TagPropL>>), V("PcrProperties", 7, <<TagPcrL>>),
                    V("EccCurves", 8, <<CurveL>>), V("AuthPolicies", 9, <<TagPolL>>) >>)
AuthCmd == St(<< <<"session_handle", U32>>, <<"nonce", Digest>>, <<"session_attributes", U8>>, <<"hmac", Digest>> >>)
AuthResp == St(<< <<"nonce", Digest>>, <<"session_attributes", U8>>, <<"hmac", Data>> >>)
IdObject == St(<< <<"integrity_hmac", Digest>>, <<"enc_identity", Digest>> >>)
NvPublic == St(<< <<"nv_index", U32>>, <<"name_alg", U16>>, <<"attributes", U32>>, <<"auth_policy", Digest>>, <<"data_size", U16>> >>)
ContextData == St(<< <<"integrity", Digest>>, <<"encrypted", B2(5120)>> >>)
CreationData == St(<< <<"pcr_select", PcrSelL>>, <<"pcr_digest", Digest>>, <<"locality", U8>>, <<"parent_name_alg", U16>>,
                      <<"parent_name", Name>>, <<"parent_qualified_name", Name>>, <<"outside_info", Data>> >>)
\* shapes of a user of the derive macros (defined in the harness)
UserPair == St(<< <<"0", U8>>, <<"1", U32>> >>)
UserMixed == St(<< <<"a", U8>>, <<"b", U16>>, <<"words", Lst(1, 5, U16)>>, <<"tri", Arr(3, U32)>>, <<"c", U64>>,
                   <<"pairs", Lst(2, 2, UserPair)>>, <<"d", U32>> >>)
UserChoice == Un(1, << V("One", 1, <<U32>>), V("Two", 2, <<UserPair, UserMixed>>), V("Top", 255, <<Raw(3)>>) >>)

\* Every marshalable type of the public API: << name, grammar term >>
TypeTable == <<
  <<"U8", U8>>,
  <<"U16", U16>>,
  <<"U32", U32>>,
  <<"U64", U64>>,
  <<"I8", U8>>,
  <<"I16", U16>>,
  <<"I32", U32>>,
  <<"I64", U64>>,
  <<"Unit", Empty>>,
  <<"Raw5", Raw(5)>>,
  <<"Raw0", Raw(0)>>,
  <<"UserPair", UserPair>>,
  <<"UserMixed", UserMixed>>,
  <<"UserChoice", UserChoice>>,
  <<"UserSmall", B2(3)>>,
  <<"UserWrap", B2(Cap("UserWrap"))>>,
  <<"TpmaLocality", U8>>,
  <<"TpmaSession", U8>>,
  <<"TpmiYesNo", U8>>,
  <<"TpmaNv", U32>>,
  <<"TpmaObject", U32>>,
  <<"TpmaAlgorithm", U32>>,
  <<"TpmaCc", U32>>,
  <<"TpmCc", U32>>,
  <<"TpmCap", U32>>,
  <<"TpmPt", U32>>,
  <<"TpmPtPcr", U32>>,
  <<"TpmHandle", U32>>,
  <<"TpmGenerated", U32>>,
  <<"TpmiRhNvIndex", U32>>,
  <<"TpmiShAuthSession", U32>>,
  <<"TpmiAlgHash", U16>>,
  <<"TpmiAlgKdf", U16>>,
  <<"TpmiAlgPublic", U16>>,
  <<"TpmiAlgSymMode", U16>>,
  <<"TpmiAlgSymObject", U16>>,
  <<"TpmiAlgKeyedhashScheme", U16>>,
  <<"TpmiAlgRsaScheme", U16>>,
  <<"TpmiAlgSigScheme", U16>>,
  <<"TpmiAlgEccScheme", U16>>,
  <<"TpmiAlgAsymScheme", U16>>,
  <<"TpmiStAttest", U16>>,
  <<"TpmiStCommandTag", U16>>,
  <<"TpmAlgId", U16>>,
  <<"TpmEccCurve", U16>>,
  <<"TpmSt", U16>>,
  <<"TpmSu", U16>>,
  <<"TpmiEccCurve", U16>>,
  <<"TpmiAesKeyBits", U16>>,
  <<"TpmiSm4KeyBits", U16>>,
  <<"TpmiCamelliaKeyBits", U16>>,
  <<"TpmiRsaKeyBits", U16>>,
  <<"TpmsTaggedPcrSelect", TagPcr>>,
  <<"TpmsTaggedPolicy", TagPol>>,
  <<"PcrReadCmd", Opq(St(<< <<"s", PcrSelL>> >>))>>,
  <<"PcrReadResp", Opq(St(<< <<"c", U32>>, <<"s", PcrSelL>>, <<"v", DigestL>> >>))>>,
  <<"TpmsEmpty", Empty>>,
  <<"Tpm2bDigest", B2(64)>>,
  <<"Tpm2bData", B2(64)>>,
  <<"Tpm2bEvent", B2(1024)>>,
  <<"Tpm2bMaxBuffer", B2(1024)>>,
  <<"Tpm2bMaxNvBuffer", B2(2048)>>,
  <<"Tpm2bIv", B2(16)>>,
  <<"Tpm2bName", B2(66)>>,
  <<"Tpm2bAttest", B2(Cap("Tpm2bAttest"))>>,
  <<"Tpm2bSymKey", B2(32)>>,
  <<"Tpm2bLabel", B2(32)>>,
  <<"Tpm2bSensitiveData", B2(256)>>,
  <<"Tpm2bSensitiveCreate", B2(Cap("Tpm2bSensitiveCreate"))>>,
  <<"Tpm2bPublicKeyRsa", B2(512)>>,
  <<"Tpm2bPrivateKeyRsa", B2(256)>>,
  <<"Tpm2bEccParameter", B2(128)>>,
  <<"Tpm2bEncryptedSecret", B2(Cap("Tpm2bEncryptedSecret"))>>,
  <<"Tpm2bPublic", B2(Cap("Tpm2bPublic"))>>,
  <<"Tpm2bTemplate", B2(Cap("Tpm2bTemplate"))>>,
  <<"Tpm2bPrivateVendorSpecific", B2(1280)>>,
  <<"Tpm2bPrivate", B2(Cap("Tpm2bPrivate"))>>,
  <<"Tpm2bIdObject", B2(Cap("Tpm2bIdObject"))>>,
  <<"Tpm2bContextSensitive", B2(5120)>>,
  <<"Tpm2bContextData", B2(Cap("Tpm2bContextData"))>>,
  <<"Tpm2bCreationData", B2(Cap("Tpm2bCreationData"))>>,
  <<"TpmsClockInfo", ClockInfo>>,
  <<"TpmsQuoteInfo", Quote>>,
  <<"TpmsCreationInfo", Creation>>,
  <<"TpmsCertifyInfo", Certify>>,
  <<"TpmsCommandAuditInfo", CmdAudit>>,
  <<"TpmsSessionAuditInfo", SessAudit>>,
  <<"TpmsTimeInfo", Time>>,
  <<"TpmsTimeAttestInfo", TimeAttest>>,
  <<"TpmsNvCertifyInfo", NvCertify>>,
  <<"TpmsDerive", Derive>>,
  <<"TpmsSensitiveCreate", SensCreate>>,
  <<"TpmsEccPoint", EccPoint>>,
  <<"TpmsSchemeXor", SXor>>,
  <<"TpmsKeyedHashParms", KeyedHashParms>>,
  <<"TpmsSymCipherParms", SymParms>>,
  <<"TpmsSignatureRsa", SigRsa>>,
  <<"TpmsSignatureEcc", SigEcc>>,
  <<"TpmsSchemeHash", SHash>>,
  <<"TpmsSchemeEcdaa", SEcdaa>>,
  <<"TpmsRsaParms", RsaParms>>,
  <<"TpmsEccParms", EccParms>>,
  <<"TpmsAsymParms", AsymParms>>,
  <<"TpmsAlgProperty", AlgProp>>,
  <<"TpmsTaggedProperty", TagProp>>,
  <<"TpmsAuthCommand", AuthCmd>>,
  <<"TpmsAuthResponse", AuthResp>>,
  <<"TpmsIdObject", IdObject>>,
  <<"TpmsNvPublic", NvPublic>>,
  <<"TpmsContextData", ContextData>>,
  <<"TpmsCreationData", CreationData>>,
  <<"GetCapabilityCmd", St(<< <<"capability", U32>>, <<"property", U32>>, <<"property_count", U32>> >>)>>,
  <<"GetCapabilityResp", St(<< <<"more_data", U8>>, <<"capability_data", CapData>> >>)>>,
  <<"GetRandomCmd", St(<< <<"bytes_requested", U16>> >>)>>,
  <<"GetRandomResp", St(<< <<"random_bytes", Digest>> >>)>>,
  <<"StartupCmd", St(<< <<"startup_type", U16>> >>)>>,
  <<"RespHeader", St(<< <<"tag", U16>>, <<"size", U32>>, <<"rc", U32>> >>)>>,
  <<"CmdHeader", Opq(St(<< <<"tag", U16>>, <<"size", U32>>, <<"code", U32>> >>))>>,
  <<"TpmsPcrSelection", PcrSel>>,
  <<"TpmsAttest", Attest>>,
  <<"TpmtPublic", Public>>,
  <<"TpmtSensitive", Sensitive>>,
  <<"TpmtHa", Ha>>,
  <<"TpmuAttest", Un(2, AttestV)>>,
  <<"TpmtKeyedHashScheme", KeyedHashScheme>>,
  <<"TpmtSymDefObject", SymDef>>,
  <<"TpmtSignature", Signature>>,
  <<"TpmtSigScheme", SigScheme>>,
  <<"TpmtRsaScheme", RsaScheme>>,
  <<"TpmtEccScheme", EccScheme>>,
  <<"TpmtKdfScheme", KdfScheme>>,
  <<"TpmtAsymScheme", AsymScheme>>,
  <<"PublicParmsAndId", Un(2, PubV)>>,
  <<"TpmuSensitiveComposite", Un(2, SensV)>>,
  <<"TpmsCapabilityData", CapData>>,
  <<"TpmlPcrSelection", PcrSelL>>,
  <<"TpmlAlgProperty", AlgPropL>>,
  <<"TpmlHandle", HandleL>>,
  <<"TpmlCc", CcL>>,
  <<"TpmlCca", Opq(CcaL)>>,
  <<"TpmlTaggedPcrProperty", TagPcrL>>,
  <<"TpmlEccCurve", CurveL>>,
  <<"TpmlTaggedPolicy", TagPolL>>,
  <<"TpmlDigest", DigestL>>,
  <<"TpmlTaggedTpmProperty", TagPropL>>
>>
TypeFun == [n \in {TypeTable[x][1] : x \in 1..Len(TypeTable)} |->
              (CHOOSE r \in {TypeTable[x] : x \in 1..Len(TypeTable)} : r[1] = n)[2]]
TypeOf(n) == TypeFun[n]

\* Structures carried inside sized buffers: << sized type, wrapped grammar >>
Wrapped == << <<"Tpm2bAttest", Attest>>, <<"Tpm2bSensitiveCreate", SensCreate>>, <<"Tpm2bPublic", Public>>,
              <<"Tpm2bTemplate", Public>>, <<"Tpm2bIdObject", IdObject>>, <<"Tpm2bContextData", ContextData>>,
              <<"Tpm2bCreationData", CreationData>>, <<"Tpm2bPrivate", St(<< <<"o", Digest>>, <<"i", Digest>>, <<"s", Sensitive>> >>)>>,
              <<"Tpm2bEncryptedSecret", EccPoint>>, <<"UserWrap", UserMixed>> >>
=============================================================================
