//! Every exported name and the value the library gives it (C19).
use crate::json::J;
use crate::util::*;
use tpm2_rs_base::*;

pub fn run(out: &str) {
    let mut o = Out::new(out);
    let mut put = |t: &str, n: &str, v: u32| o.line(J::obj([("t", J::s(t)), ("n", J::s(n)), ("hi", J::I((v >> 16) as i64)), ("lo", J::I((v & 0xffff) as i64))]));
    put("TpmAlgId", "RSA", constants::TpmAlgId::RSA.0 as u32);
    put("TpmAlgId", "TDES", constants::TpmAlgId::TDES.0 as u32);
    put("TpmAlgId", "SHA1", constants::TpmAlgId::SHA1.0 as u32);
    put("TpmAlgId", "HMAC", constants::TpmAlgId::HMAC.0 as u32);
    put("TpmAlgId", "AES", constants::TpmAlgId::AES.0 as u32);
    put("TpmAlgId", "MGF1", constants::TpmAlgId::MGF1.0 as u32);
    put("TpmAlgId", "KeyedHash", constants::TpmAlgId::KeyedHash.0 as u32);
    put("TpmAlgId", "XOR", constants::TpmAlgId::XOR.0 as u32);
    put("TpmAlgId", "SHA256", constants::TpmAlgId::SHA256.0 as u32);
    put("TpmAlgId", "SHA384", constants::TpmAlgId::SHA384.0 as u32);
    put("TpmAlgId", "SHA512", constants::TpmAlgId::SHA512.0 as u32);
    put("TpmAlgId", "Null", constants::TpmAlgId::Null.0 as u32);
    put("TpmAlgId", "SM3256", constants::TpmAlgId::SM3256.0 as u32);
    put("TpmAlgId", "SM4", constants::TpmAlgId::SM4.0 as u32);
    put("TpmAlgId", "RSASSA", constants::TpmAlgId::RSASSA.0 as u32);
    put("TpmAlgId", "RSAES", constants::TpmAlgId::RSAES.0 as u32);
    put("TpmAlgId", "RSAPSS", constants::TpmAlgId::RSAPSS.0 as u32);
    put("TpmAlgId", "OAEP", constants::TpmAlgId::OAEP.0 as u32);
    put("TpmAlgId", "ECDSA", constants::TpmAlgId::ECDSA.0 as u32);
    put("TpmAlgId", "ECDH", constants::TpmAlgId::ECDH.0 as u32);
    put("TpmAlgId", "ECDAA", constants::TpmAlgId::ECDAA.0 as u32);
    put("TpmAlgId", "SM2", constants::TpmAlgId::SM2.0 as u32);
    put("TpmAlgId", "ECSchnorr", constants::TpmAlgId::ECSchnorr.0 as u32);
    put("TpmAlgId", "ECMQV", constants::TpmAlgId::ECMQV.0 as u32);
    put("TpmAlgId", "KDF1SP80056A", constants::TpmAlgId::KDF1SP80056A.0 as u32);
    put("TpmAlgId", "KDF2", constants::TpmAlgId::KDF2.0 as u32);
    put("TpmAlgId", "KDF1SP800108", constants::TpmAlgId::KDF1SP800108.0 as u32);
    put("TpmAlgId", "ECC", constants::TpmAlgId::ECC.0 as u32);
    put("TpmAlgId", "SymCipher", constants::TpmAlgId::SymCipher.0 as u32);
    put("TpmAlgId", "Camellia", constants::TpmAlgId::Camellia.0 as u32);
    put("TpmAlgId", "SHA3256", constants::TpmAlgId::SHA3256.0 as u32);
    put("TpmAlgId", "SHA3384", constants::TpmAlgId::SHA3384.0 as u32);
    put("TpmAlgId", "SHA3512", constants::TpmAlgId::SHA3512.0 as u32);
    put("TpmAlgId", "CMAC", constants::TpmAlgId::CMAC.0 as u32);
    put("TpmAlgId", "CTR", constants::TpmAlgId::CTR.0 as u32);
    put("TpmAlgId", "OFB", constants::TpmAlgId::OFB.0 as u32);
    put("TpmAlgId", "CBC", constants::TpmAlgId::CBC.0 as u32);
    put("TpmAlgId", "CFB", constants::TpmAlgId::CFB.0 as u32);
    put("TpmAlgId", "ECB", constants::TpmAlgId::ECB.0 as u32);
    put("TpmEccCurve", "None", constants::TpmEccCurve::None.0 as u32);
    put("TpmEccCurve", "NistP192", constants::TpmEccCurve::NistP192.0 as u32);
    put("TpmEccCurve", "NistP224", constants::TpmEccCurve::NistP224.0 as u32);
    put("TpmEccCurve", "NistP256", constants::TpmEccCurve::NistP256.0 as u32);
    put("TpmEccCurve", "NistP384", constants::TpmEccCurve::NistP384.0 as u32);
    put("TpmEccCurve", "NistP521", constants::TpmEccCurve::NistP521.0 as u32);
    put("TpmEccCurve", "BNP256", constants::TpmEccCurve::BNP256.0 as u32);
    put("TpmEccCurve", "BNP638", constants::TpmEccCurve::BNP638.0 as u32);
    put("TpmEccCurve", "SM2P256", constants::TpmEccCurve::SM2P256.0 as u32);
    put("TpmCc", "NVUndefineSpaceSpecial", constants::TpmCc::NVUndefineSpaceSpecial.0 as u32);
    put("TpmCc", "EvictControl", constants::TpmCc::EvictControl.0 as u32);
    put("TpmCc", "HierarchyControl", constants::TpmCc::HierarchyControl.0 as u32);
    put("TpmCc", "NVUndefineSpace", constants::TpmCc::NVUndefineSpace.0 as u32);
    put("TpmCc", "ChangeEPS", constants::TpmCc::ChangeEPS.0 as u32);
    put("TpmCc", "ChangePPS", constants::TpmCc::ChangePPS.0 as u32);
    put("TpmCc", "Clear", constants::TpmCc::Clear.0 as u32);
    put("TpmCc", "ClearControl", constants::TpmCc::ClearControl.0 as u32);
    put("TpmCc", "ClockSet", constants::TpmCc::ClockSet.0 as u32);
    put("TpmCc", "HierarchyChanegAuth", constants::TpmCc::HierarchyChanegAuth.0 as u32);
    put("TpmCc", "NVDefineSpace", constants::TpmCc::NVDefineSpace.0 as u32);
    put("TpmCc", "PCRAllocate", constants::TpmCc::PCRAllocate.0 as u32);
    put("TpmCc", "PCRSetAuthPolicy", constants::TpmCc::PCRSetAuthPolicy.0 as u32);
    put("TpmCc", "PPCommands", constants::TpmCc::PPCommands.0 as u32);
    put("TpmCc", "SetPrimaryPolicy", constants::TpmCc::SetPrimaryPolicy.0 as u32);
    put("TpmCc", "FieldUpgradeStart", constants::TpmCc::FieldUpgradeStart.0 as u32);
    put("TpmCc", "ClockRateAdjust", constants::TpmCc::ClockRateAdjust.0 as u32);
    put("TpmCc", "CreatePrimary", constants::TpmCc::CreatePrimary.0 as u32);
    put("TpmCc", "NVGlobalWriteLock", constants::TpmCc::NVGlobalWriteLock.0 as u32);
    put("TpmCc", "GetCommandAuditDigest", constants::TpmCc::GetCommandAuditDigest.0 as u32);
    put("TpmCc", "NVIncrement", constants::TpmCc::NVIncrement.0 as u32);
    put("TpmCc", "NVSetBits", constants::TpmCc::NVSetBits.0 as u32);
    put("TpmCc", "NVExtend", constants::TpmCc::NVExtend.0 as u32);
    put("TpmCc", "NVWrite", constants::TpmCc::NVWrite.0 as u32);
    put("TpmCc", "NVWriteLock", constants::TpmCc::NVWriteLock.0 as u32);
    put("TpmCc", "DictionaryAttackLockReset", constants::TpmCc::DictionaryAttackLockReset.0 as u32);
    put("TpmCc", "DictionaryAttackParameters", constants::TpmCc::DictionaryAttackParameters.0 as u32);
    put("TpmCc", "NVChangeAuth", constants::TpmCc::NVChangeAuth.0 as u32);
    put("TpmCc", "PCREvent", constants::TpmCc::PCREvent.0 as u32);
    put("TpmCc", "PCRReset", constants::TpmCc::PCRReset.0 as u32);
    put("TpmCc", "SequenceComplete", constants::TpmCc::SequenceComplete.0 as u32);
    put("TpmCc", "SetAlgorithmSet", constants::TpmCc::SetAlgorithmSet.0 as u32);
    put("TpmCc", "SetCommandCodeAuditStatus", constants::TpmCc::SetCommandCodeAuditStatus.0 as u32);
    put("TpmCc", "FieldUpgradeData", constants::TpmCc::FieldUpgradeData.0 as u32);
    put("TpmCc", "IncrementalSelfTest", constants::TpmCc::IncrementalSelfTest.0 as u32);
    put("TpmCc", "SelfTest", constants::TpmCc::SelfTest.0 as u32);
    put("TpmCc", "Startup", constants::TpmCc::Startup.0 as u32);
    put("TpmCc", "Shutdown", constants::TpmCc::Shutdown.0 as u32);
    put("TpmCc", "StirRandom", constants::TpmCc::StirRandom.0 as u32);
    put("TpmCc", "ActivateCredential", constants::TpmCc::ActivateCredential.0 as u32);
    put("TpmCc", "Certify", constants::TpmCc::Certify.0 as u32);
    put("TpmCc", "PolicyNV", constants::TpmCc::PolicyNV.0 as u32);
    put("TpmCc", "CertifyCreation", constants::TpmCc::CertifyCreation.0 as u32);
    put("TpmCc", "Duplicate", constants::TpmCc::Duplicate.0 as u32);
    put("TpmCc", "GetTime", constants::TpmCc::GetTime.0 as u32);
    put("TpmCc", "GetSessionAuditDigest", constants::TpmCc::GetSessionAuditDigest.0 as u32);
    put("TpmCc", "NVRead", constants::TpmCc::NVRead.0 as u32);
    put("TpmCc", "NVReadLock", constants::TpmCc::NVReadLock.0 as u32);
    put("TpmCc", "ObjectChangeAuth", constants::TpmCc::ObjectChangeAuth.0 as u32);
    put("TpmCc", "PolicySecret", constants::TpmCc::PolicySecret.0 as u32);
    put("TpmCc", "Rewrap", constants::TpmCc::Rewrap.0 as u32);
    put("TpmCc", "Create", constants::TpmCc::Create.0 as u32);
    put("TpmCc", "ECDHZGen", constants::TpmCc::ECDHZGen.0 as u32);
    put("TpmCc", "MAC", constants::TpmCc::MAC.0 as u32);
    put("TpmCc", "Import", constants::TpmCc::Import.0 as u32);
    put("TpmCc", "Load", constants::TpmCc::Load.0 as u32);
    put("TpmCc", "Quote", constants::TpmCc::Quote.0 as u32);
    put("TpmCc", "RSADecrypt", constants::TpmCc::RSADecrypt.0 as u32);
    put("TpmCc", "MACStart", constants::TpmCc::MACStart.0 as u32);
    put("TpmCc", "SequenceUpdate", constants::TpmCc::SequenceUpdate.0 as u32);
    put("TpmCc", "Sign", constants::TpmCc::Sign.0 as u32);
    put("TpmCc", "Unseal", constants::TpmCc::Unseal.0 as u32);
    put("TpmCc", "PolicySigned", constants::TpmCc::PolicySigned.0 as u32);
    put("TpmCc", "ContextLoad", constants::TpmCc::ContextLoad.0 as u32);
    put("TpmCc", "ContextSave", constants::TpmCc::ContextSave.0 as u32);
    put("TpmCc", "ECDHKeyGen", constants::TpmCc::ECDHKeyGen.0 as u32);
    put("TpmCc", "EncryptDecrypt", constants::TpmCc::EncryptDecrypt.0 as u32);
    put("TpmCc", "FlushContext", constants::TpmCc::FlushContext.0 as u32);
    put("TpmCc", "LoadExternal", constants::TpmCc::LoadExternal.0 as u32);
    put("TpmCc", "MakeCredential", constants::TpmCc::MakeCredential.0 as u32);
    put("TpmCc", "NVReadPublic", constants::TpmCc::NVReadPublic.0 as u32);
    put("TpmCc", "PolicyAuthorize", constants::TpmCc::PolicyAuthorize.0 as u32);
    put("TpmCc", "PolicyAuthValue", constants::TpmCc::PolicyAuthValue.0 as u32);
    put("TpmCc", "PolicyCommandCode", constants::TpmCc::PolicyCommandCode.0 as u32);
    put("TpmCc", "PolicyCounterTimer", constants::TpmCc::PolicyCounterTimer.0 as u32);
    put("TpmCc", "PolicyCpHash", constants::TpmCc::PolicyCpHash.0 as u32);
    put("TpmCc", "PolicyLocality", constants::TpmCc::PolicyLocality.0 as u32);
    put("TpmCc", "PolicyNameHash", constants::TpmCc::PolicyNameHash.0 as u32);
    put("TpmCc", "PolicyOR", constants::TpmCc::PolicyOR.0 as u32);
    put("TpmCc", "PolicyTicket", constants::TpmCc::PolicyTicket.0 as u32);
    put("TpmCc", "ReadPublic", constants::TpmCc::ReadPublic.0 as u32);
    put("TpmCc", "RSAEncrypt", constants::TpmCc::RSAEncrypt.0 as u32);
    put("TpmCc", "StartAuthSession", constants::TpmCc::StartAuthSession.0 as u32);
    put("TpmCc", "VerifySignature", constants::TpmCc::VerifySignature.0 as u32);
    put("TpmCc", "ECCParameters", constants::TpmCc::ECCParameters.0 as u32);
    put("TpmCc", "FirmwareRead", constants::TpmCc::FirmwareRead.0 as u32);
    put("TpmCc", "GetCapability", constants::TpmCc::GetCapability.0 as u32);
    put("TpmCc", "GetRandom", constants::TpmCc::GetRandom.0 as u32);
    put("TpmCc", "GetTestResult", constants::TpmCc::GetTestResult.0 as u32);
    put("TpmCc", "Hash", constants::TpmCc::Hash.0 as u32);
    put("TpmCc", "PCRRead", constants::TpmCc::PCRRead.0 as u32);
    put("TpmCc", "PolicyPCR", constants::TpmCc::PolicyPCR.0 as u32);
    put("TpmCc", "PolicyRestart", constants::TpmCc::PolicyRestart.0 as u32);
    put("TpmCc", "ReadClock", constants::TpmCc::ReadClock.0 as u32);
    put("TpmCc", "PCRExtend", constants::TpmCc::PCRExtend.0 as u32);
    put("TpmCc", "PCRSetAuthValue", constants::TpmCc::PCRSetAuthValue.0 as u32);
    put("TpmCc", "NVCertify", constants::TpmCc::NVCertify.0 as u32);
    put("TpmCc", "EventSequenceComplete", constants::TpmCc::EventSequenceComplete.0 as u32);
    put("TpmCc", "HashSequenceStart", constants::TpmCc::HashSequenceStart.0 as u32);
    put("TpmCc", "PolicyPhysicalPresence", constants::TpmCc::PolicyPhysicalPresence.0 as u32);
    put("TpmCc", "PolicyDuplicationSelect", constants::TpmCc::PolicyDuplicationSelect.0 as u32);
    put("TpmCc", "PolicyGetDigest", constants::TpmCc::PolicyGetDigest.0 as u32);
    put("TpmCc", "TestParams", constants::TpmCc::TestParams.0 as u32);
    put("TpmCc", "Commit", constants::TpmCc::Commit.0 as u32);
    put("TpmCc", "PolicyPassword", constants::TpmCc::PolicyPassword.0 as u32);
    put("TpmCc", "ZGen2Phase", constants::TpmCc::ZGen2Phase.0 as u32);
    put("TpmCc", "ECEphemeral", constants::TpmCc::ECEphemeral.0 as u32);
    put("TpmCc", "PolicyNvWritten", constants::TpmCc::PolicyNvWritten.0 as u32);
    put("TpmCc", "PolicyTemplate", constants::TpmCc::PolicyTemplate.0 as u32);
    put("TpmCc", "CreateLoaded", constants::TpmCc::CreateLoaded.0 as u32);
    put("TpmCc", "PolicyAuthorizeNV", constants::TpmCc::PolicyAuthorizeNV.0 as u32);
    put("TpmCc", "EncryptDecrypt2", constants::TpmCc::EncryptDecrypt2.0 as u32);
    put("TpmCc", "ACGetCapability", constants::TpmCc::ACGetCapability.0 as u32);
    put("TpmCc", "ACSend", constants::TpmCc::ACSend.0 as u32);
    put("TpmCc", "PolicyACSendSelect", constants::TpmCc::PolicyACSendSelect.0 as u32);
    put("TpmCc", "CertifyX509", constants::TpmCc::CertifyX509.0 as u32);
    put("TpmCc", "ACTSetTimeout", constants::TpmCc::ACTSetTimeout.0 as u32);
    put("TpmRc", "Success", constants::TpmRc::Success.0 as u32);
    put("TpmRc", "Initialize", constants::TpmRc::Initialize.0 as u32);
    put("TpmRc", "Failure", constants::TpmRc::Failure.0 as u32);
    put("TpmRc", "Sequence", constants::TpmRc::Sequence.0 as u32);
    put("TpmRc", "Private", constants::TpmRc::Private.0 as u32);
    put("TpmRc", "Hmac", constants::TpmRc::Hmac.0 as u32);
    put("TpmRc", "Disabled", constants::TpmRc::Disabled.0 as u32);
    put("TpmRc", "Exclusive", constants::TpmRc::Exclusive.0 as u32);
    put("TpmRc", "AuthType", constants::TpmRc::AuthType.0 as u32);
    put("TpmRc", "AuthMissing", constants::TpmRc::AuthMissing.0 as u32);
    put("TpmRc", "Policy", constants::TpmRc::Policy.0 as u32);
    put("TpmRc", "Pcr", constants::TpmRc::Pcr.0 as u32);
    put("TpmRc", "PCRChanged", constants::TpmRc::PCRChanged.0 as u32);
    put("TpmRc", "Upgrade", constants::TpmRc::Upgrade.0 as u32);
    put("TpmRc", "TooManyContexts", constants::TpmRc::TooManyContexts.0 as u32);
    put("TpmRc", "AuthUnavailable", constants::TpmRc::AuthUnavailable.0 as u32);
    put("TpmRc", "Reboot", constants::TpmRc::Reboot.0 as u32);
    put("TpmRc", "Unbalanced", constants::TpmRc::Unbalanced.0 as u32);
    put("TpmRc", "CommandSize", constants::TpmRc::CommandSize.0 as u32);
    put("TpmRc", "CommandCode", constants::TpmRc::CommandCode.0 as u32);
    put("TpmRc", "AuthSize", constants::TpmRc::AuthSize.0 as u32);
    put("TpmRc", "AuthContext", constants::TpmRc::AuthContext.0 as u32);
    put("TpmRc", "NVRange", constants::TpmRc::NVRange.0 as u32);
    put("TpmRc", "NVSize", constants::TpmRc::NVSize.0 as u32);
    put("TpmRc", "NVLocked", constants::TpmRc::NVLocked.0 as u32);
    put("TpmRc", "NVAuthorization", constants::TpmRc::NVAuthorization.0 as u32);
    put("TpmRc", "NVUninitialized", constants::TpmRc::NVUninitialized.0 as u32);
    put("TpmRc", "NVSpace", constants::TpmRc::NVSpace.0 as u32);
    put("TpmRc", "NVDefined", constants::TpmRc::NVDefined.0 as u32);
    put("TpmRc", "BadContext", constants::TpmRc::BadContext.0 as u32);
    put("TpmRc", "CPHash", constants::TpmRc::CPHash.0 as u32);
    put("TpmRc", "Parent", constants::TpmRc::Parent.0 as u32);
    put("TpmRc", "NeedsTest", constants::TpmRc::NeedsTest.0 as u32);
    put("TpmRc", "NoResult", constants::TpmRc::NoResult.0 as u32);
    put("TpmRc", "Sensitive", constants::TpmRc::Sensitive.0 as u32);
    put("TpmRc", "CAsymmetric", constants::TpmRc::CAsymmetric.0 as u32);
    put("TpmRc", "Attributes", constants::TpmRc::Attributes.0 as u32);
    put("TpmRc", "Hash", constants::TpmRc::Hash.0 as u32);
    put("TpmRc", "Value", constants::TpmRc::Value.0 as u32);
    put("TpmRc", "Hierarchy", constants::TpmRc::Hierarchy.0 as u32);
    put("TpmRc", "KeySize", constants::TpmRc::KeySize.0 as u32);
    put("TpmRc", "Mgf", constants::TpmRc::Mgf.0 as u32);
    put("TpmRc", "Mode", constants::TpmRc::Mode.0 as u32);
    put("TpmRc", "Type", constants::TpmRc::Type.0 as u32);
    put("TpmRc", "Handle", constants::TpmRc::Handle.0 as u32);
    put("TpmRc", "Kdf", constants::TpmRc::Kdf.0 as u32);
    put("TpmRc", "Range", constants::TpmRc::Range.0 as u32);
    put("TpmRc", "AuthFail", constants::TpmRc::AuthFail.0 as u32);
    put("TpmRc", "Nonce", constants::TpmRc::Nonce.0 as u32);
    put("TpmRc", "PP", constants::TpmRc::PP.0 as u32);
    put("TpmRc", "Scheme", constants::TpmRc::Scheme.0 as u32);
    put("TpmRc", "Size", constants::TpmRc::Size.0 as u32);
    put("TpmRc", "Symmetric", constants::TpmRc::Symmetric.0 as u32);
    put("TpmRc", "Tag", constants::TpmRc::Tag.0 as u32);
    put("TpmRc", "Selector", constants::TpmRc::Selector.0 as u32);
    put("TpmRc", "Insufficient", constants::TpmRc::Insufficient.0 as u32);
    put("TpmRc", "Signature", constants::TpmRc::Signature.0 as u32);
    put("TpmRc", "Key", constants::TpmRc::Key.0 as u32);
    put("TpmRc", "PolicyFail", constants::TpmRc::PolicyFail.0 as u32);
    put("TpmRc", "Integrity", constants::TpmRc::Integrity.0 as u32);
    put("TpmRc", "Ticket", constants::TpmRc::Ticket.0 as u32);
    put("TpmRc", "ReservedBits", constants::TpmRc::ReservedBits.0 as u32);
    put("TpmRc", "BadAuth", constants::TpmRc::BadAuth.0 as u32);
    put("TpmRc", "Expired", constants::TpmRc::Expired.0 as u32);
    put("TpmRc", "PolicyCC", constants::TpmRc::PolicyCC.0 as u32);
    put("TpmRc", "Binding", constants::TpmRc::Binding.0 as u32);
    put("TpmRc", "Curve", constants::TpmRc::Curve.0 as u32);
    put("TpmRc", "ECCPoint", constants::TpmRc::ECCPoint.0 as u32);
    put("TpmRc", "ContextGap", constants::TpmRc::ContextGap.0 as u32);
    put("TpmRc", "ObjectMemory", constants::TpmRc::ObjectMemory.0 as u32);
    put("TpmRc", "SessionMemory", constants::TpmRc::SessionMemory.0 as u32);
    put("TpmRc", "Memory", constants::TpmRc::Memory.0 as u32);
    put("TpmRc", "SessionHandles", constants::TpmRc::SessionHandles.0 as u32);
    put("TpmRc", "ObjectHandles", constants::TpmRc::ObjectHandles.0 as u32);
    put("TpmRc", "Locality", constants::TpmRc::Locality.0 as u32);
    put("TpmRc", "Yielded", constants::TpmRc::Yielded.0 as u32);
    put("TpmRc", "Canceled", constants::TpmRc::Canceled.0 as u32);
    put("TpmRc", "Testing", constants::TpmRc::Testing.0 as u32);
    put("TpmRc", "ReferenceH0", constants::TpmRc::ReferenceH0.0 as u32);
    put("TpmRc", "ReferenceH1", constants::TpmRc::ReferenceH1.0 as u32);
    put("TpmRc", "ReferenceH2", constants::TpmRc::ReferenceH2.0 as u32);
    put("TpmRc", "ReferenceH3", constants::TpmRc::ReferenceH3.0 as u32);
    put("TpmRc", "ReferenceH4", constants::TpmRc::ReferenceH4.0 as u32);
    put("TpmRc", "ReferenceH5", constants::TpmRc::ReferenceH5.0 as u32);
    put("TpmRc", "ReferenceH6", constants::TpmRc::ReferenceH6.0 as u32);
    put("TpmRc", "ReferenceS0", constants::TpmRc::ReferenceS0.0 as u32);
    put("TpmRc", "ReferenceS1", constants::TpmRc::ReferenceS1.0 as u32);
    put("TpmRc", "ReferenceS2", constants::TpmRc::ReferenceS2.0 as u32);
    put("TpmRc", "ReferenceS3", constants::TpmRc::ReferenceS3.0 as u32);
    put("TpmRc", "ReferenceS4", constants::TpmRc::ReferenceS4.0 as u32);
    put("TpmRc", "ReferenceS5", constants::TpmRc::ReferenceS5.0 as u32);
    put("TpmRc", "ReferenceS6", constants::TpmRc::ReferenceS6.0 as u32);
    put("TpmRc", "NVRate", constants::TpmRc::NVRate.0 as u32);
    put("TpmRc", "Lockout", constants::TpmRc::Lockout.0 as u32);
    put("TpmRc", "Retry", constants::TpmRc::Retry.0 as u32);
    put("TpmRc", "NVUnavailable", constants::TpmRc::NVUnavailable.0 as u32);
    put("TpmEo", "Eq", constants::TpmEo::Eq.0 as u32);
    put("TpmEo", "Neq", constants::TpmEo::Neq.0 as u32);
    put("TpmEo", "SignedGT", constants::TpmEo::SignedGT.0 as u32);
    put("TpmEo", "UnsignedGT", constants::TpmEo::UnsignedGT.0 as u32);
    put("TpmEo", "SignedLT", constants::TpmEo::SignedLT.0 as u32);
    put("TpmEo", "UnsignedLT", constants::TpmEo::UnsignedLT.0 as u32);
    put("TpmEo", "SignedGE", constants::TpmEo::SignedGE.0 as u32);
    put("TpmEo", "UnsignedGE", constants::TpmEo::UnsignedGE.0 as u32);
    put("TpmEo", "SignedLE", constants::TpmEo::SignedLE.0 as u32);
    put("TpmEo", "UnsignedLE", constants::TpmEo::UnsignedLE.0 as u32);
    put("TpmEo", "BitSet", constants::TpmEo::BitSet.0 as u32);
    put("TpmEo", "BitClear", constants::TpmEo::BitClear.0 as u32);
    put("TpmSt", "RspCommand", constants::TpmSt::RspCommand.0 as u32);
    put("TpmSt", "Null", constants::TpmSt::Null.0 as u32);
    put("TpmSt", "NoSessions", constants::TpmSt::NoSessions.0 as u32);
    put("TpmSt", "Sessions", constants::TpmSt::Sessions.0 as u32);
    put("TpmSt", "AttestNV", constants::TpmSt::AttestNV.0 as u32);
    put("TpmSt", "AttestCommandAudit", constants::TpmSt::AttestCommandAudit.0 as u32);
    put("TpmSt", "AttestSessionAudit", constants::TpmSt::AttestSessionAudit.0 as u32);
    put("TpmSt", "AttestCertify", constants::TpmSt::AttestCertify.0 as u32);
    put("TpmSt", "AttestQuote", constants::TpmSt::AttestQuote.0 as u32);
    put("TpmSt", "AttestTime", constants::TpmSt::AttestTime.0 as u32);
    put("TpmSt", "AttestCreation", constants::TpmSt::AttestCreation.0 as u32);
    put("TpmSt", "AttestNVDigest", constants::TpmSt::AttestNVDigest.0 as u32);
    put("TpmSt", "Creation", constants::TpmSt::Creation.0 as u32);
    put("TpmSt", "Verified", constants::TpmSt::Verified.0 as u32);
    put("TpmSt", "AuthSecret", constants::TpmSt::AuthSecret.0 as u32);
    put("TpmSt", "HashCheck", constants::TpmSt::HashCheck.0 as u32);
    put("TpmSt", "AuthSigned", constants::TpmSt::AuthSigned.0 as u32);
    put("TpmSt", "FuManifest", constants::TpmSt::FuManifest.0 as u32);
    put("TpmSu", "Clear", constants::TpmSu::Clear.0 as u32);
    put("TpmSu", "State", constants::TpmSu::State.0 as u32);
    put("TpmSe", "HMAC", constants::TpmSe::HMAC.0 as u32);
    put("TpmSe", "Policy", constants::TpmSe::Policy.0 as u32);
    put("TpmSe", "Trial", constants::TpmSe::Trial.0 as u32);
    put("TpmCap", "Algs", constants::TpmCap::Algs.0 as u32);
    put("TpmCap", "Handles", constants::TpmCap::Handles.0 as u32);
    put("TpmCap", "Commands", constants::TpmCap::Commands.0 as u32);
    put("TpmCap", "PPCommands", constants::TpmCap::PPCommands.0 as u32);
    put("TpmCap", "AuditCommands", constants::TpmCap::AuditCommands.0 as u32);
    put("TpmCap", "PCRs", constants::TpmCap::PCRs.0 as u32);
    put("TpmCap", "TPMProperties", constants::TpmCap::TPMProperties.0 as u32);
    put("TpmCap", "PCRProperties", constants::TpmCap::PCRProperties.0 as u32);
    put("TpmCap", "ECCCurves", constants::TpmCap::ECCCurves.0 as u32);
    put("TpmCap", "AuthPolicies", constants::TpmCap::AuthPolicies.0 as u32);
    put("TpmCap", "ACT", constants::TpmCap::ACT.0 as u32);
    put("TpmPt", "FamilyIndicator", constants::TpmPt::FamilyIndicator.0 as u32);
    put("TpmPt", "Level", constants::TpmPt::Level.0 as u32);
    put("TpmPt", "Revision", constants::TpmPt::Revision.0 as u32);
    put("TpmPt", "DayofYear", constants::TpmPt::DayofYear.0 as u32);
    put("TpmPt", "Year", constants::TpmPt::Year.0 as u32);
    put("TpmPt", "Manufacturer", constants::TpmPt::Manufacturer.0 as u32);
    put("TpmPt", "VendorString1", constants::TpmPt::VendorString1.0 as u32);
    put("TpmPt", "VendorString2", constants::TpmPt::VendorString2.0 as u32);
    put("TpmPt", "VendorString3", constants::TpmPt::VendorString3.0 as u32);
    put("TpmPt", "VendorString4", constants::TpmPt::VendorString4.0 as u32);
    put("TpmPt", "VendorTPMType", constants::TpmPt::VendorTPMType.0 as u32);
    put("TpmPt", "FirmwareVersion1", constants::TpmPt::FirmwareVersion1.0 as u32);
    put("TpmPt", "FirmwareVersion2", constants::TpmPt::FirmwareVersion2.0 as u32);
    put("TpmPt", "InputBuffer", constants::TpmPt::InputBuffer.0 as u32);
    put("TpmPt", "HRTransientMin", constants::TpmPt::HRTransientMin.0 as u32);
    put("TpmPt", "HRPersistentMin", constants::TpmPt::HRPersistentMin.0 as u32);
    put("TpmPt", "HRLoadedMin", constants::TpmPt::HRLoadedMin.0 as u32);
    put("TpmPt", "ActiveSessionsMax", constants::TpmPt::ActiveSessionsMax.0 as u32);
    put("TpmPt", "PCRCount", constants::TpmPt::PCRCount.0 as u32);
    put("TpmPt", "PCRSelectMin", constants::TpmPt::PCRSelectMin.0 as u32);
    put("TpmPt", "ContextGapMax", constants::TpmPt::ContextGapMax.0 as u32);
    put("TpmPt", "NVCountersMax", constants::TpmPt::NVCountersMax.0 as u32);
    put("TpmPt", "NVIndexMax", constants::TpmPt::NVIndexMax.0 as u32);
    put("TpmPt", "Memory", constants::TpmPt::Memory.0 as u32);
    put("TpmPt", "ClockUpdate", constants::TpmPt::ClockUpdate.0 as u32);
    put("TpmPt", "ContextHash", constants::TpmPt::ContextHash.0 as u32);
    put("TpmPt", "ContextSym", constants::TpmPt::ContextSym.0 as u32);
    put("TpmPt", "ContextSymSize", constants::TpmPt::ContextSymSize.0 as u32);
    put("TpmPt", "OrderlyCount", constants::TpmPt::OrderlyCount.0 as u32);
    put("TpmPt", "MaxCommandSize", constants::TpmPt::MaxCommandSize.0 as u32);
    put("TpmPt", "MaxResponseSize", constants::TpmPt::MaxResponseSize.0 as u32);
    put("TpmPt", "MaxDigest", constants::TpmPt::MaxDigest.0 as u32);
    put("TpmPt", "MaxObjectContext", constants::TpmPt::MaxObjectContext.0 as u32);
    put("TpmPt", "MaxSessionContext", constants::TpmPt::MaxSessionContext.0 as u32);
    put("TpmPt", "PSFamilyIndicator", constants::TpmPt::PSFamilyIndicator.0 as u32);
    put("TpmPt", "PSLevel", constants::TpmPt::PSLevel.0 as u32);
    put("TpmPt", "PSRevision", constants::TpmPt::PSRevision.0 as u32);
    put("TpmPt", "PSDayOfYear", constants::TpmPt::PSDayOfYear.0 as u32);
    put("TpmPt", "PSYear", constants::TpmPt::PSYear.0 as u32);
    put("TpmPt", "SplitMax", constants::TpmPt::SplitMax.0 as u32);
    put("TpmPt", "TotalCommands", constants::TpmPt::TotalCommands.0 as u32);
    put("TpmPt", "LibraryCommands", constants::TpmPt::LibraryCommands.0 as u32);
    put("TpmPt", "VendorCommands", constants::TpmPt::VendorCommands.0 as u32);
    put("TpmPt", "NVBufferMax", constants::TpmPt::NVBufferMax.0 as u32);
    put("TpmPt", "Modes", constants::TpmPt::Modes.0 as u32);
    put("TpmPt", "MaxCapBuffer", constants::TpmPt::MaxCapBuffer.0 as u32);
    put("TpmPt", "Permanent", constants::TpmPt::Permanent.0 as u32);
    put("TpmPt", "StartupClear", constants::TpmPt::StartupClear.0 as u32);
    put("TpmPt", "HRNVIndex", constants::TpmPt::HRNVIndex.0 as u32);
    put("TpmPt", "HRLoaded", constants::TpmPt::HRLoaded.0 as u32);
    put("TpmPt", "HRLoadedAvail", constants::TpmPt::HRLoadedAvail.0 as u32);
    put("TpmPt", "HRActive", constants::TpmPt::HRActive.0 as u32);
    put("TpmPt", "HRActiveAvail", constants::TpmPt::HRActiveAvail.0 as u32);
    put("TpmPt", "HRTransientAvail", constants::TpmPt::HRTransientAvail.0 as u32);
    put("TpmPt", "HRPersistent", constants::TpmPt::HRPersistent.0 as u32);
    put("TpmPt", "HRPersistentAvail", constants::TpmPt::HRPersistentAvail.0 as u32);
    put("TpmPt", "NVCounters", constants::TpmPt::NVCounters.0 as u32);
    put("TpmPt", "NVCountersAvail", constants::TpmPt::NVCountersAvail.0 as u32);
    put("TpmPt", "AlgorithmSet", constants::TpmPt::AlgorithmSet.0 as u32);
    put("TpmPt", "LoadedCurves", constants::TpmPt::LoadedCurves.0 as u32);
    put("TpmPt", "LockoutCounter", constants::TpmPt::LockoutCounter.0 as u32);
    put("TpmPt", "MaxAuthFail", constants::TpmPt::MaxAuthFail.0 as u32);
    put("TpmPt", "LockoutInterval", constants::TpmPt::LockoutInterval.0 as u32);
    put("TpmPt", "LockoutRecovery", constants::TpmPt::LockoutRecovery.0 as u32);
    put("TpmPt", "NVWriteRecovery", constants::TpmPt::NVWriteRecovery.0 as u32);
    put("TpmPt", "AuditCounter0", constants::TpmPt::AuditCounter0.0 as u32);
    put("TpmPt", "AuditCounter1", constants::TpmPt::AuditCounter1.0 as u32);
    put("TpmPtPcr", "Save", constants::TpmPtPcr::Save.0 as u32);
    put("TpmPtPcr", "ExtendL0", constants::TpmPtPcr::ExtendL0.0 as u32);
    put("TpmPtPcr", "ResetL0", constants::TpmPtPcr::ResetL0.0 as u32);
    put("TpmPtPcr", "ExtendL1", constants::TpmPtPcr::ExtendL1.0 as u32);
    put("TpmPtPcr", "ResetL1", constants::TpmPtPcr::ResetL1.0 as u32);
    put("TpmPtPcr", "ExtendL2", constants::TpmPtPcr::ExtendL2.0 as u32);
    put("TpmPtPcr", "ResetL2", constants::TpmPtPcr::ResetL2.0 as u32);
    put("TpmPtPcr", "ExtendL3", constants::TpmPtPcr::ExtendL3.0 as u32);
    put("TpmPtPcr", "ResetL3", constants::TpmPtPcr::ResetL3.0 as u32);
    put("TpmPtPcr", "ExtendL4", constants::TpmPtPcr::ExtendL4.0 as u32);
    put("TpmPtPcr", "ResetL4", constants::TpmPtPcr::ResetL4.0 as u32);
    put("TpmPtPcr", "NoIncrement", constants::TpmPtPcr::NoIncrement.0 as u32);
    put("TpmPtPcr", "DRTMRest", constants::TpmPtPcr::DRTMRest.0 as u32);
    put("TpmPtPcr", "Policy", constants::TpmPtPcr::Policy.0 as u32);
    put("TpmPtPcr", "Auth", constants::TpmPtPcr::Auth.0 as u32);
    put("TpmHt", "PCR", constants::TpmHt::PCR.0 as u32);
    put("TpmHt", "NVIndex", constants::TpmHt::NVIndex.0 as u32);
    put("TpmHt", "HMACSession", constants::TpmHt::HMACSession.0 as u32);
    put("TpmHt", "PolicySession", constants::TpmHt::PolicySession.0 as u32);
    put("TpmHt", "Permanent", constants::TpmHt::Permanent.0 as u32);
    put("TpmHt", "Transient", constants::TpmHt::Transient.0 as u32);
    put("TpmHt", "Persistent", constants::TpmHt::Persistent.0 as u32);
    put("TpmHt", "AC", constants::TpmHt::AC.0 as u32);
    put("TpmHandle", "RHOwner", constants::TpmHandle::RHOwner.0 as u32);
    put("TpmHandle", "RHNull", constants::TpmHandle::RHNull.0 as u32);
    put("TpmHandle", "RSPW", constants::TpmHandle::RSPW.0 as u32);
    put("TpmHandle", "RHLockout", constants::TpmHandle::RHLockout.0 as u32);
    put("TpmHandle", "RHEndorsement", constants::TpmHandle::RHEndorsement.0 as u32);
    put("TpmHandle", "RHPlatform", constants::TpmHandle::RHPlatform.0 as u32);
    put("TpmHandle", "RHPlatformNV", constants::TpmHandle::RHPlatformNV.0 as u32);
    put("TpmNt", "Ordinary", constants::TpmNt::Ordinary.0 as u32);
    put("TpmNt", "Counter", constants::TpmNt::Counter.0 as u32);
    put("TpmNt", "Bits", constants::TpmNt::Bits.0 as u32);
    put("TpmNt", "Extend", constants::TpmNt::Extend.0 as u32);
    put("TpmNt", "PinFail", constants::TpmNt::PinFail.0 as u32);
    put("TpmNt", "PinPass", constants::TpmNt::PinPass.0 as u32);
    put("TpmGenerated", "VALUE", constants::TpmGenerated::VALUE.0 as u32);
    put("TpmiAlgHash", "SHA1", TpmiAlgHash::SHA1.0 as u32);
    put("TpmiAlgHash", "SHA256", TpmiAlgHash::SHA256.0 as u32);
    put("TpmiAlgHash", "SHA384", TpmiAlgHash::SHA384.0 as u32);
    put("TpmiAlgHash", "SHA512", TpmiAlgHash::SHA512.0 as u32);
    put("TpmiAlgHash", "SM3256", TpmiAlgHash::SM3256.0 as u32);
    put("TpmiAlgHash", "SHA3256", TpmiAlgHash::SHA3256.0 as u32);
    put("TpmiAlgHash", "SHA3384", TpmiAlgHash::SHA3384.0 as u32);
    put("TpmiAlgHash", "SHA3512", TpmiAlgHash::SHA3512.0 as u32);
    put("TpmiAlgKdf", "MGF1", TpmiAlgKdf::MGF1.0 as u32);
    put("TpmiAlgKdf", "KDF1SP80056A", TpmiAlgKdf::KDF1SP80056A.0 as u32);
    put("TpmiAlgKdf", "KDF2", TpmiAlgKdf::KDF2.0 as u32);
    put("TpmiAlgKdf", "KDF1SP800108", TpmiAlgKdf::KDF1SP800108.0 as u32);
    put("TpmiAlgPublic", "RSA", TpmiAlgPublic::RSA.0 as u32);
    put("TpmiAlgPublic", "KeyedHash", TpmiAlgPublic::KeyedHash.0 as u32);
    put("TpmiAlgPublic", "ECC", TpmiAlgPublic::ECC.0 as u32);
    put("TpmiAlgPublic", "SymCipher", TpmiAlgPublic::SymCipher.0 as u32);
    put("TpmiAlgSymMode", "CMAC", TpmiAlgSymMode::CMAC.0 as u32);
    put("TpmiAlgSymMode", "CTR", TpmiAlgSymMode::CTR.0 as u32);
    put("TpmiAlgSymMode", "OFB", TpmiAlgSymMode::OFB.0 as u32);
    put("TpmiAlgSymMode", "CBC", TpmiAlgSymMode::CBC.0 as u32);
    put("TpmiAlgSymMode", "CFB", TpmiAlgSymMode::CFB.0 as u32);
    put("TpmiAlgSymMode", "ECB", TpmiAlgSymMode::ECB.0 as u32);
    put("TpmiAlgSymObject", "TDES", TpmiAlgSymObject::TDES.0 as u32);
    put("TpmiAlgSymObject", "AES", TpmiAlgSymObject::AES.0 as u32);
    put("TpmiAlgSymObject", "SM4", TpmiAlgSymObject::SM4.0 as u32);
    put("TpmiAlgSymObject", "Camellia", TpmiAlgSymObject::Camellia.0 as u32);
    put("TpmiAlgKeyedhashScheme", "HMAC", TpmiAlgKeyedhashScheme::HMAC.0 as u32);
    put("TpmiAlgKeyedhashScheme", "XOR", TpmiAlgKeyedhashScheme::XOR.0 as u32);
    put("TpmiAlgRsaScheme", "RSAPSS", TpmiAlgRsaScheme::RSAPSS.0 as u32);
    put("TpmiAlgRsaScheme", "RSASSA", TpmiAlgRsaScheme::RSASSA.0 as u32);
    put("TpmiAlgRsaScheme", "ECDSA", TpmiAlgRsaScheme::ECDSA.0 as u32);
    put("TpmiAlgRsaScheme", "ECDAA", TpmiAlgRsaScheme::ECDAA.0 as u32);
    put("TpmiAlgRsaScheme", "SM2", TpmiAlgRsaScheme::SM2.0 as u32);
    put("TpmiAlgRsaScheme", "ECSchnorr", TpmiAlgRsaScheme::ECSchnorr.0 as u32);
    put("TpmiAlgRsaScheme", "RSAES", TpmiAlgRsaScheme::RSAES.0 as u32);
    put("TpmiAlgRsaScheme", "OAEP", TpmiAlgRsaScheme::OAEP.0 as u32);
    put("TpmiAlgSigScheme", "RSAPSS", TpmiAlgSigScheme::RSAPSS.0 as u32);
    put("TpmiAlgSigScheme", "RSASSA", TpmiAlgSigScheme::RSASSA.0 as u32);
    put("TpmiAlgSigScheme", "ECDSA", TpmiAlgSigScheme::ECDSA.0 as u32);
    put("TpmiAlgSigScheme", "ECDAA", TpmiAlgSigScheme::ECDAA.0 as u32);
    put("TpmiAlgSigScheme", "SM2", TpmiAlgSigScheme::SM2.0 as u32);
    put("TpmiAlgSigScheme", "ECSchnorr", TpmiAlgSigScheme::ECSchnorr.0 as u32);
    put("TpmiAlgSigScheme", "HMAC", TpmiAlgSigScheme::HMAC.0 as u32);
    put("TpmiAlgEccScheme", "RSAPSS", TpmiAlgEccScheme::RSAPSS.0 as u32);
    put("TpmiAlgEccScheme", "RSASSA", TpmiAlgEccScheme::RSASSA.0 as u32);
    put("TpmiAlgEccScheme", "ECDSA", TpmiAlgEccScheme::ECDSA.0 as u32);
    put("TpmiAlgEccScheme", "ECDAA", TpmiAlgEccScheme::ECDAA.0 as u32);
    put("TpmiAlgEccScheme", "SM2", TpmiAlgEccScheme::SM2.0 as u32);
    put("TpmiAlgEccScheme", "ECSchnorr", TpmiAlgEccScheme::ECSchnorr.0 as u32);
    put("TpmiAlgEccScheme", "ECDH", TpmiAlgEccScheme::ECDH.0 as u32);
    put("TpmiAlgEccScheme", "ECMQV", TpmiAlgEccScheme::ECMQV.0 as u32);
    put("TpmiAlgAsymScheme", "SM2", TpmiAlgAsymScheme::SM2.0 as u32);
    put("TpmiAlgAsymScheme", "ECDH", TpmiAlgAsymScheme::ECDH.0 as u32);
    put("TpmiAlgAsymScheme", "ECMQV", TpmiAlgAsymScheme::ECMQV.0 as u32);
    put("TpmiAlgAsymScheme", "RSAPSS", TpmiAlgAsymScheme::RSAPSS.0 as u32);
    put("TpmiAlgAsymScheme", "RSASSA", TpmiAlgAsymScheme::RSASSA.0 as u32);
    put("TpmiAlgAsymScheme", "ECDSA", TpmiAlgAsymScheme::ECDSA.0 as u32);
    put("TpmiAlgAsymScheme", "ECDAA", TpmiAlgAsymScheme::ECDAA.0 as u32);
    put("TpmiAlgAsymScheme", "ECSchnorr", TpmiAlgAsymScheme::ECSchnorr.0 as u32);
    put("TpmiAlgAsymScheme", "RSAES", TpmiAlgAsymScheme::RSAES.0 as u32);
    put("TpmiAlgAsymScheme", "OAEP", TpmiAlgAsymScheme::OAEP.0 as u32);
    put("TpmiYesNo", "NO", TpmiYesNo::NO.0 as u32);
    put("TpmiYesNo", "YES", TpmiYesNo::YES.0 as u32);
    put("TpmiStAttest", "AttestCertify", TpmiStAttest::AttestCertify.0 as u32);
    put("TpmiStAttest", "AttestQuote", TpmiStAttest::AttestQuote.0 as u32);
    put("TpmiStAttest", "AttestSessionAudit", TpmiStAttest::AttestSessionAudit.0 as u32);
    put("TpmiStAttest", "AttestCommandAudit", TpmiStAttest::AttestCommandAudit.0 as u32);
    put("TpmiStAttest", "AttestTime", TpmiStAttest::AttestTime.0 as u32);
    put("TpmiStAttest", "AttestCreation", TpmiStAttest::AttestCreation.0 as u32);
    put("TpmiStAttest", "AttestNV", TpmiStAttest::AttestNV.0 as u32);
    put("TpmiStAttest", "AttestNVDigest", TpmiStAttest::AttestNVDigest.0 as u32);
    put("TpmiStCommandTag", "NoSessions", TpmiStCommandTag::NoSessions.0 as u32);
    put("TpmiStCommandTag", "Sessions", TpmiStCommandTag::Sessions.0 as u32);
    put("TpmaLocality", "LOC_ZERO", TpmaLocality::LOC_ZERO.bits() as u32);
    put("TpmaLocality", "LOC_ONE", TpmaLocality::LOC_ONE.bits() as u32);
    put("TpmaLocality", "LOC_TWO", TpmaLocality::LOC_TWO.bits() as u32);
    put("TpmaLocality", "LOC_THREE", TpmaLocality::LOC_THREE.bits() as u32);
    put("TpmaLocality", "LOC_FOUR", TpmaLocality::LOC_FOUR.bits() as u32);
    put("TpmaNv", "PPWRITE", TpmaNv::PPWRITE.bits() as u32);
    put("TpmaNv", "OWNERWRITE", TpmaNv::OWNERWRITE.bits() as u32);
    put("TpmaNv", "AUTHWRITE", TpmaNv::AUTHWRITE.bits() as u32);
    put("TpmaNv", "POLICYWRITE", TpmaNv::POLICYWRITE.bits() as u32);
    put("TpmaNv", "POLICY_DELETE", TpmaNv::POLICY_DELETE.bits() as u32);
    put("TpmaNv", "WRITELOCKED", TpmaNv::WRITELOCKED.bits() as u32);
    put("TpmaNv", "WRITEALL", TpmaNv::WRITEALL.bits() as u32);
    put("TpmaNv", "WRITEDEFINE", TpmaNv::WRITEDEFINE.bits() as u32);
    put("TpmaNv", "WRITE_STCLEAR", TpmaNv::WRITE_STCLEAR.bits() as u32);
    put("TpmaNv", "GLOBALLOCK", TpmaNv::GLOBALLOCK.bits() as u32);
    put("TpmaNv", "PPREAD", TpmaNv::PPREAD.bits() as u32);
    put("TpmaNv", "OWNERREAD", TpmaNv::OWNERREAD.bits() as u32);
    put("TpmaNv", "AUTHREAD", TpmaNv::AUTHREAD.bits() as u32);
    put("TpmaNv", "POLICYREAD", TpmaNv::POLICYREAD.bits() as u32);
    put("TpmaNv", "NO_DA", TpmaNv::NO_DA.bits() as u32);
    put("TpmaNv", "ORDERLY", TpmaNv::ORDERLY.bits() as u32);
    put("TpmaNv", "CLEAR_STCLEAR", TpmaNv::CLEAR_STCLEAR.bits() as u32);
    put("TpmaNv", "READLOCKED", TpmaNv::READLOCKED.bits() as u32);
    put("TpmaNv", "WRITTEN", TpmaNv::WRITTEN.bits() as u32);
    put("TpmaNv", "PLATFORMCREATE", TpmaNv::PLATFORMCREATE.bits() as u32);
    put("TpmaNv", "READ_STCLEAR", TpmaNv::READ_STCLEAR.bits() as u32);
    put("TpmaObject", "FIXED_TPM", TpmaObject::FIXED_TPM.bits() as u32);
    put("TpmaObject", "ST_CLEAR", TpmaObject::ST_CLEAR.bits() as u32);
    put("TpmaObject", "FIXED_PARENT", TpmaObject::FIXED_PARENT.bits() as u32);
    put("TpmaObject", "SENSITIVE_DATA_ORIGIN", TpmaObject::SENSITIVE_DATA_ORIGIN.bits() as u32);
    put("TpmaObject", "USER_WITH_AUTH", TpmaObject::USER_WITH_AUTH.bits() as u32);
    put("TpmaObject", "ADMIN_WITH_POLICY", TpmaObject::ADMIN_WITH_POLICY.bits() as u32);
    put("TpmaObject", "NO_DA", TpmaObject::NO_DA.bits() as u32);
    put("TpmaObject", "ENCRYPTED_DUPLICATION", TpmaObject::ENCRYPTED_DUPLICATION.bits() as u32);
    put("TpmaObject", "RESTRICTED", TpmaObject::RESTRICTED.bits() as u32);
    put("TpmaObject", "DECRYPT", TpmaObject::DECRYPT.bits() as u32);
    put("TpmaObject", "SIGN_ENCRYPT", TpmaObject::SIGN_ENCRYPT.bits() as u32);
    put("TpmaObject", "X509_SIGN", TpmaObject::X509_SIGN.bits() as u32);
    put("TpmaAlgorithm", "ASYMMETRIC", TpmaAlgorithm::ASYMMETRIC.bits() as u32);
    put("TpmaAlgorithm", "SYMMETRIC", TpmaAlgorithm::SYMMETRIC.bits() as u32);
    put("TpmaAlgorithm", "HASH", TpmaAlgorithm::HASH.bits() as u32);
    put("TpmaAlgorithm", "OBJECT", TpmaAlgorithm::OBJECT.bits() as u32);
    put("TpmaAlgorithm", "SIGNING", TpmaAlgorithm::SIGNING.bits() as u32);
    put("TpmaAlgorithm", "ENCRYPTING", TpmaAlgorithm::ENCRYPTING.bits() as u32);
    put("TpmaAlgorithm", "METHOD", TpmaAlgorithm::METHOD.bits() as u32);
    put("TpmaSession", "CONTINUE_SESSION", TpmaSession::CONTINUE_SESSION.bits() as u32);
    put("TpmaSession", "AUDIT_EXCLUSIVE", TpmaSession::AUDIT_EXCLUSIVE.bits() as u32);
    put("TpmaSession", "AUDIT_RESET", TpmaSession::AUDIT_RESET.bits() as u32);
    put("TpmaSession", "DECRYPT", TpmaSession::DECRYPT.bits() as u32);
    put("TpmaSession", "ENCRYPT", TpmaSession::ENCRYPT.bits() as u32);
    put("TpmaSession", "AUDIT", TpmaSession::AUDIT.bits() as u32);
    put("TpmaCc", "NV", TpmaCc::NV.bits() as u32);
    put("TpmaCc", "EXTENSIVE", TpmaCc::EXTENSIVE.bits() as u32);
    put("TpmaCc", "FLUSHED", TpmaCc::FLUSHED.bits() as u32);
    put("TpmaCc", "R_HANDLE", TpmaCc::R_HANDLE.bits() as u32);
    put("TpmaCc", "V", TpmaCc::V.bits() as u32);
    put("Alg", "Rsa", tpm2::Alg::Rsa.0 as u32);
    put("Alg", "Tdes", tpm2::Alg::Tdes.0 as u32);
    put("Alg", "Sha1", tpm2::Alg::Sha1.0 as u32);
    put("Alg", "Hmac", tpm2::Alg::Hmac.0 as u32);
    put("Alg", "Aes", tpm2::Alg::Aes.0 as u32);
    put("Alg", "Mgf1", tpm2::Alg::Mgf1.0 as u32);
    put("Alg", "KeyedHash", tpm2::Alg::KeyedHash.0 as u32);
    put("Alg", "Null", tpm2::Alg::Null.0 as u32);
    put("Alg", "Xor", tpm2::Alg::Xor.0 as u32);
    put("Alg", "Sha256", tpm2::Alg::Sha256.0 as u32);
    put("Alg", "Sha384", tpm2::Alg::Sha384.0 as u32);
    put("Alg", "Sha512", tpm2::Alg::Sha512.0 as u32);
    put("Alg", "Sm3_256", tpm2::Alg::Sm3_256.0 as u32);
    put("Alg", "Sm4", tpm2::Alg::Sm4.0 as u32);
    put("Alg", "RsaSsa", tpm2::Alg::RsaSsa.0 as u32);
    put("Alg", "RsaEs", tpm2::Alg::RsaEs.0 as u32);
    put("Alg", "RsaPss", tpm2::Alg::RsaPss.0 as u32);
    put("Alg", "Oaep", tpm2::Alg::Oaep.0 as u32);
    put("Alg", "Ecdsa", tpm2::Alg::Ecdsa.0 as u32);
    put("Alg", "Ecdh", tpm2::Alg::Ecdh.0 as u32);
    put("Alg", "Ecdaa", tpm2::Alg::Ecdaa.0 as u32);
    put("Alg", "Sm2", tpm2::Alg::Sm2.0 as u32);
    put("Alg", "EcSchnorr", tpm2::Alg::EcSchnorr.0 as u32);
    put("Alg", "Ecmqv", tpm2::Alg::Ecmqv.0 as u32);
    put("Alg", "Kdf1Sp800_56A", tpm2::Alg::Kdf1Sp800_56A.0 as u32);
    put("Alg", "Kdf2", tpm2::Alg::Kdf2.0 as u32);
    put("Alg", "Kdf1Sp800_108", tpm2::Alg::Kdf1Sp800_108.0 as u32);
    put("Alg", "Ecc", tpm2::Alg::Ecc.0 as u32);
    put("Alg", "SymCipher", tpm2::Alg::SymCipher.0 as u32);
    put("Alg", "Camellia", tpm2::Alg::Camellia.0 as u32);
    put("Alg", "Sha3_256", tpm2::Alg::Sha3_256.0 as u32);
    put("Alg", "Sha3_384", tpm2::Alg::Sha3_384.0 as u32);
    put("Alg", "Sha3_512", tpm2::Alg::Sha3_512.0 as u32);
    put("Alg", "Ctr", tpm2::Alg::Ctr.0 as u32);
    put("Alg", "Ofb", tpm2::Alg::Ofb.0 as u32);
    put("Alg", "Cbc", tpm2::Alg::Cbc.0 as u32);
    put("Alg", "Cfb", tpm2::Alg::Cfb.0 as u32);
    put("Alg", "Ecb", tpm2::Alg::Ecb.0 as u32);
    put("TpmRc", "RC_VER_1", constants::TpmRc::RC_VER_1);
    put("TpmRc", "RC_FMT_1", constants::TpmRc::RC_FMT_1);
    put("TpmRc", "RC_WARN", constants::TpmRc::RC_WARN);
    put("TpmRc", "RC_P", constants::TpmRc::RC_P);
    put("TpmRc", "RC_S", constants::TpmRc::RC_S);
    put("TpmHc", "HmacSessionFirst", constants::TpmHc::HmacSessionFirst.get());
    put("TpmHc", "HmacSessionLast", constants::TpmHc::HmacSessionLast.get());
    put("TpmHc", "PolicySessionFirst", constants::TpmHc::PolicySessionFirst.get());
    put("TpmHc", "PolicySessionLast", constants::TpmHc::PolicySessionLast.get());
    put("TpmHc", "PersistentFirst", constants::TpmHc::PersistentFirst.get());
    put("TpmHc", "PersistentLast", constants::TpmHc::PersistentLast.get());
    put("TpmHc", "NVIndexFirst", constants::TpmHc::NVIndexFirst.get());
    put("TpmHc", "NVIndexLast", constants::TpmHc::NVIndexLast.get());
    put("DigestSize", "SHA", constants::TPM2_SHA_DIGEST_SIZE);
    put("DigestSize", "SHA1", constants::TPM2_SHA1_DIGEST_SIZE);
    put("DigestSize", "SHA256", constants::TPM2_SHA256_DIGEST_SIZE);
    put("DigestSize", "SHA384", constants::TPM2_SHA384_DIGEST_SIZE);
    put("DigestSize", "SHA512", constants::TPM2_SHA512_DIGEST_SIZE);
    put("DigestSize", "SM3_256", constants::TPM2_SM3_256_DIGEST_SIZE);
    put("tpm2.TpmiAlgHash", "Sha1", tpm2::TpmiAlgHash::Sha1 as u16 as u32);
    put("tpm2.TpmiAlgHash", "Sha256", tpm2::TpmiAlgHash::Sha256 as u16 as u32);
    put("tpm2.TpmiAlgHash", "Sha384", tpm2::TpmiAlgHash::Sha384 as u16 as u32);
    put("tpm2.TpmiAlgHash", "Sha512", tpm2::TpmiAlgHash::Sha512 as u16 as u32);
    put("tpm2.TpmiAlgHash", "Sm3_256", tpm2::TpmiAlgHash::Sm3_256 as u16 as u32);
    put("tpm2.TpmiAlgHash", "Sha3_256", tpm2::TpmiAlgHash::Sha3_256 as u16 as u32);
    put("tpm2.TpmiAlgHash", "Sha3_384", tpm2::TpmiAlgHash::Sha3_384 as u16 as u32);
    put("tpm2.TpmiAlgHash", "Sha3_512", tpm2::TpmiAlgHash::Sha3_512 as u16 as u32);
    put("CMD_CODE", "StartupCmd", <commands::StartupCmd as commands::TpmCommand>::CMD_CODE.0 as u32);
    put("CMD_CODE", "GetRandomCmd", <commands::GetRandomCmd as commands::TpmCommand>::CMD_CODE.0 as u32);
    put("CMD_CODE", "GetCapabilityCmd", <commands::GetCapabilityCmd as commands::TpmCommand>::CMD_CODE.0 as u32);
    put("CMD_CODE", "PcrReadCmd", <commands::PcrReadCmd as commands::TpmCommand>::CMD_CODE.0 as u32);
    o.done();
}
