// C28: names of enumeration members and digest parameter blocks
//@t 60
#include "sym.h"
#include <string>
#include <memory>
#include <initializer_list>
#include "SHA2Params.h"
#include "KeccakParams.h"
#include "SkeinParams.h"
#include "BlakeParams.h"
#include "AeadModes.h"
#include "AsymmetricCiphers.h"
#include "AsymmetricParameters.h"
#include "AsymmetricPrimitives.h"
#include "AsymmetricSigners.h"
#include "BlockCiphers.h"
#include "CipherModes.h"
#include "Digests.h"
#include "DilithiumParameters.h"
#include "Drbgs.h"
#include "ECDHParameters.h"
#include "ExceptionTypes.h"
#include "Kdfs.h"
#include "KmacModes.h"
#include "Kms.h"
#include "KpaModes.h"
#include "KyberParameters.h"
#include "Macs.h"
#include "McElieceParameters.h"
#include "PaddingModes.h"
#include "Prngs.h"
#include "Providers.h"
#include "SHA2Digests.h"
#include "SecurityPolicy.h"
#include "ShakeModes.h"
#include "SphincsPlusParameters.h"
#include "StreamAuthenticators.h"
#include "StreamCiphers.h"
#include "SymmetricCiphers.h"
#include "ThreefishModes.h"
#include "XmssParameters.h"
using namespace CEX; using namespace CEX::Enumeration; using namespace CEX::Digest;
// for every declared member: it has a name, and the name leads back to it
template<class E,class C> static void all(std::initializer_list<uint8_t> L){ std::string none=C::ToName((E)0); uint8_t v; sym_bytes(&v,1,"v"); bool mem=false; for(uint8_t m:L) mem=mem|(v==m); sym_assume(mem); std::string n=C::ToName((E)v); sym_reach(1); sym_assert(n!=none&&n.size()!=0,"every member has a name"); std::string q=n; E r=C::FromName(q); sym_assert((uint8_t)r==v,"the name leads back to the member"); }
ENTRY c28_aeadmodes(){ all<AeadModes,AeadModeConvert>({(uint8_t)AeadModes::GCM,(uint8_t)AeadModes::HBA,(uint8_t)AeadModes::HBAH256,(uint8_t)AeadModes::HBAH512,(uint8_t)AeadModes::HBAS256,(uint8_t)AeadModes::HBAS512}); } //@ reach=1 b="every member; every byte value for the names"
ENTRY c28_asymmetricciphers(){ all<AsymmetricCiphers,AsymmetricCipherConvert>({(uint8_t)AsymmetricCiphers::Kyber,(uint8_t)AsymmetricCiphers::McEliece,(uint8_t)AsymmetricCiphers::ECDH}); } //@ reach=1 b="every member; every byte value for the names"
ENTRY c28_asymmetricparameters(){ all<AsymmetricParameters,AsymmetricTransformConvert>({(uint8_t)AsymmetricParameters::DLTMS1P2544,(uint8_t)AsymmetricParameters::DLTMS3P4016,(uint8_t)AsymmetricParameters::DLTMS5P4880,(uint8_t)AsymmetricParameters::ECDHS1P25519K,(uint8_t)AsymmetricParameters::ECDHS2P25519S,(uint8_t)AsymmetricParameters::ECDSAS1P25519K,(uint8_t)AsymmetricParameters::ECDSAS2P25519S,(uint8_t)AsymmetricParameters::KYBERS1P1632,(uint8_t)AsymmetricParameters::KYBERS3P2400,(uint8_t)AsymmetricParameters::KYBERS5P3168,(uint8_t)AsymmetricParameters::KYBERS6P3936,(uint8_t)AsymmetricParameters::MPKCS3N4608T96,(uint8_t)AsymmetricParameters::MPKCS3N6960T119,(uint8_t)AsymmetricParameters::MPKCS4N6688T128,(uint8_t)AsymmetricParameters::MPKCS5N8192T128,(uint8_t)AsymmetricParameters::SPXPS1S128SHAKE,(uint8_t)AsymmetricParameters::SPXPS3S192SHAKE,(uint8_t)AsymmetricParameters::SPXPS5S256SHAKE,(uint8_t)AsymmetricParameters::SPXPS6S512SHAKE,(uint8_t)AsymmetricParameters::XMSSSHA2256H10,(uint8_t)AsymmetricParameters::XMSSSHA2256H16,(uint8_t)AsymmetricParameters::XMSSSHA2256H20,(uint8_t)AsymmetricParameters::XMSSSHA2512H10,(uint8_t)AsymmetricParameters::XMSSSHA2512H16,(uint8_t)AsymmetricParameters::XMSSSHA2512H20,(uint8_t)AsymmetricParameters::XMSSSHAKE256H10,(uint8_t)AsymmetricParameters::XMSSSHAKE256H16,(uint8_t)AsymmetricParameters::XMSSSHAKE256H20,(uint8_t)AsymmetricParameters::XMSSSHAKE512H10,(uint8_t)AsymmetricParameters::XMSSSHAKE512H16,(uint8_t)AsymmetricParameters::XMSSSHAKE512H20,(uint8_t)AsymmetricParameters::XMSSMTSHA2256H20D2,(uint8_t)AsymmetricParameters::XMSSMTSHA2256H20D4,(uint8_t)AsymmetricParameters::XMSSMTSHA2256H40D2,(uint8_t)AsymmetricParameters::XMSSMTSHA2256H40D4,(uint8_t)AsymmetricParameters::XMSSMTSHA2256H40D8,(uint8_t)AsymmetricParameters::XMSSMTSHA2256H60D3,(uint8_t)AsymmetricParameters::XMSSMTSHA2256H60D6,(uint8_t)AsymmetricParameters::XMSSMTSHA2256H60D12,(uint8_t)AsymmetricParameters::XMSSMTSHA2512H20D2,(uint8_t)AsymmetricParameters::XMSSMTSHA2512H20D4,(uint8_t)AsymmetricParameters::XMSSMTSHA2512H40D2,(uint8_t)AsymmetricParameters::XMSSMTSHA2512H40D4,(uint8_t)AsymmetricParameters::XMSSMTSHA2512H40D8,(uint8_t)AsymmetricParameters::XMSSMTSHA2512H60D3,(uint8_t)AsymmetricParameters::XMSSMTSHA2512H60D6,(uint8_t)AsymmetricParameters::XMSSMTSHA2512H60D12,(uint8_t)AsymmetricParameters::XMSSMTSHAKE256H20D2,(uint8_t)AsymmetricParameters::XMSSMTSHAKE256H20D4,(uint8_t)AsymmetricParameters::XMSSMTSHAKE256H40D2,(uint8_t)AsymmetricParameters::XMSSMTSHAKE256H40D4,(uint8_t)AsymmetricParameters::XMSSMTSHAKE256H40D8,(uint8_t)AsymmetricParameters::XMSSMTSHAKE256H60D3,(uint8_t)AsymmetricParameters::XMSSMTSHAKE256H60D6,(uint8_t)AsymmetricParameters::XMSSMTSHAKE256H60D12,(uint8_t)AsymmetricParameters::XMSSMTSHAKE512H20D2,(uint8_t)AsymmetricParameters::XMSSMTSHAKE512H20D4,(uint8_t)AsymmetricParameters::XMSSMTSHAKE512H40D2,(uint8_t)AsymmetricParameters::XMSSMTSHAKE512H40D4,(uint8_t)AsymmetricParameters::XMSSMTSHAKE512H40D8,(uint8_t)AsymmetricParameters::XMSSMTSHAKE512H60D3,(uint8_t)AsymmetricParameters::XMSSMTSHAKE512H60D6,(uint8_t)AsymmetricParameters::XMSSMTSHAKE512H60D12}); } //@ reach=1 b="every member; every byte value for the names"
ENTRY c28_asymmetricprimitives(){ all<AsymmetricPrimitives,AsymmetricPrimitiveConvert>({(uint8_t)AsymmetricPrimitives::ECDH,(uint8_t)AsymmetricPrimitives::Kyber,(uint8_t)AsymmetricPrimitives::McEliece,(uint8_t)AsymmetricPrimitives::Dilithium,(uint8_t)AsymmetricPrimitives::ECDSA,(uint8_t)AsymmetricPrimitives::SphincsPlus,(uint8_t)AsymmetricPrimitives::XMSS,(uint8_t)AsymmetricPrimitives::XMSSMT}); } //@ reach=1 b="every member; every byte value for the names"
ENTRY c28_asymmetricsigners(){ all<AsymmetricSigners,AsymmetricSignerConvert>({(uint8_t)AsymmetricSigners::Dilithium,(uint8_t)AsymmetricSigners::ECDSA,(uint8_t)AsymmetricSigners::SphincsPlus,(uint8_t)AsymmetricSigners::XMSS,(uint8_t)AsymmetricSigners::XMSSMT}); } //@ reach=1 b="every member; every byte value for the names"
ENTRY c28_blockciphers(){ all<BlockCiphers,BlockCipherConvert>({(uint8_t)BlockCiphers::AES,(uint8_t)BlockCiphers::Serpent,(uint8_t)BlockCiphers::RHXH256,(uint8_t)BlockCiphers::RHXH512,(uint8_t)BlockCiphers::RHXS256,(uint8_t)BlockCiphers::RHXS512,(uint8_t)BlockCiphers::SHXH256,(uint8_t)BlockCiphers::SHXH512,(uint8_t)BlockCiphers::SHXS256,(uint8_t)BlockCiphers::SHXS512}); } //@ reach=1 b="every member; every byte value for the names"
ENTRY c28_ciphermodes(){ all<CipherModes,CipherModeConvert>({(uint8_t)CipherModes::ACM,(uint8_t)CipherModes::CBC,(uint8_t)CipherModes::CFB,(uint8_t)CipherModes::CTR,(uint8_t)CipherModes::ECB,(uint8_t)CipherModes::GCM,(uint8_t)CipherModes::HBA,(uint8_t)CipherModes::HBAH256,(uint8_t)CipherModes::HBAH512,(uint8_t)CipherModes::HBAS256,(uint8_t)CipherModes::HBAS512,(uint8_t)CipherModes::ICM,(uint8_t)CipherModes::OFB}); } //@ reach=1 b="every member; every byte value for the names"
ENTRY c28_digests(){ all<Digests,DigestConvert>({(uint8_t)Digests::Blake256,(uint8_t)Digests::Blake512,(uint8_t)Digests::SHA3256,(uint8_t)Digests::SHA3512,(uint8_t)Digests::SHA2256,(uint8_t)Digests::SHA2512,(uint8_t)Digests::SHAKE128,(uint8_t)Digests::SHAKE256,(uint8_t)Digests::SHAKE512,(uint8_t)Digests::Skein256,(uint8_t)Digests::Skein512,(uint8_t)Digests::Skein1024}); } //@ reach=1 b="every member; every byte value for the names"
ENTRY c28_dilithiumparameters(){ all<DilithiumParameters,DilithiumParameterConvert>({(uint8_t)DilithiumParameters::DLTMS1P2544,(uint8_t)DilithiumParameters::DLTMS3P4016,(uint8_t)DilithiumParameters::DLTMS5P4880}); } //@ reach=1 b="every member; every byte value for the names"
ENTRY c28_drbgs(){ all<Drbgs,DrbgConvert>({(uint8_t)Drbgs::BCG,(uint8_t)Drbgs::CSG,(uint8_t)Drbgs::HCG}); } //@ reach=1 b="every member; every byte value for the names"
ENTRY c28_ecdhparameters(){ all<ECDHParameters,ECDHParameterConvert>({(uint8_t)ECDHParameters::ECDHS1P25519K,(uint8_t)ECDHParameters::ECDHS2P25519S}); } //@ reach=1 b="every member; every byte value for the names"
ENTRY c28_exceptiontypes(){ all<ExceptionTypes,ExceptionTypeConvert>({(uint8_t)ExceptionTypes::CryptoAsymmetricException,(uint8_t)ExceptionTypes::CryptoAuthenticationFailure,(uint8_t)ExceptionTypes::CryptoCipherModeException,(uint8_t)ExceptionTypes::CryptoDigestException,(uint8_t)ExceptionTypes::CryptoException,(uint8_t)ExceptionTypes::CryptoGeneratorException,(uint8_t)ExceptionTypes::CryptoKdfException,(uint8_t)ExceptionTypes::CryptoKmsException,(uint8_t)ExceptionTypes::CryptoMacException,(uint8_t)ExceptionTypes::CryptoPaddingException,(uint8_t)ExceptionTypes::CryptoProcessingException,(uint8_t)ExceptionTypes::CryptoRandomException,(uint8_t)ExceptionTypes::CryptoSymmetricException}); } //@ reach=1 b="every member; every byte value for the names"
ENTRY c28_kdfs(){ all<Kdfs,KdfConvert>({(uint8_t)Kdfs::HKDS512,(uint8_t)Kdfs::HKDF256,(uint8_t)Kdfs::HKDF512,(uint8_t)Kdfs::KDF2256,(uint8_t)Kdfs::KDF2512,(uint8_t)Kdfs::PBKDF2256,(uint8_t)Kdfs::PBKDF2512,(uint8_t)Kdfs::SHAKE128,(uint8_t)Kdfs::SHAKE256,(uint8_t)Kdfs::SHAKE512,(uint8_t)Kdfs::SCBKDF128,(uint8_t)Kdfs::SCBKDF256,(uint8_t)Kdfs::SCBKDF512,(uint8_t)Kdfs::SCBKDF1024,(uint8_t)Kdfs::HKDS128,(uint8_t)Kdfs::HKDS256}); } //@ reach=1 b="every member; every byte value for the names"
ENTRY c28_kmacmodes(){ all<KmacModes,KmacModeConvert>({(uint8_t)KmacModes::KMAC128,(uint8_t)KmacModes::KMAC256,(uint8_t)KmacModes::KMAC512}); } //@ reach=1 b="every member; every byte value for the names"
ENTRY c28_kms(){ all<Kms,KmsConvert>({(uint8_t)Kms::HKDS128,(uint8_t)Kms::HKDS256,(uint8_t)Kms::HKDS512}); } //@ reach=1 b="every member; every byte value for the names"
ENTRY c28_kpamodes(){ all<KpaModes,KbaModeConvert>({(uint8_t)KpaModes::KPA128,(uint8_t)KpaModes::KPA256,(uint8_t)KpaModes::KPA512}); } //@ reach=1 b="every member; every byte value for the names"
ENTRY c28_kyberparameters(){ all<KyberParameters,KyberParameterConvert>({(uint8_t)KyberParameters::KYBERS1P1632,(uint8_t)KyberParameters::KYBERS3P2400,(uint8_t)KyberParameters::KYBERS5P3168,(uint8_t)KyberParameters::KYBERS6P3936}); } //@ reach=1 b="every member; every byte value for the names"
ENTRY c28_macs(){ all<Macs,MacConvert>({(uint8_t)Macs::CMAC,(uint8_t)Macs::CMACRHXH256,(uint8_t)Macs::CMACRHXH512,(uint8_t)Macs::CMACRHXS256,(uint8_t)Macs::CMACRHXS512,(uint8_t)Macs::GMAC,(uint8_t)Macs::GMACRHXH256,(uint8_t)Macs::GMACRHXH512,(uint8_t)Macs::GMACRHXS256,(uint8_t)Macs::GMACRHXS512,(uint8_t)Macs::HMACSHA2256,(uint8_t)Macs::HMACSHA2512,(uint8_t)Macs::KPA128,(uint8_t)Macs::KPA256,(uint8_t)Macs::KPA512,(uint8_t)Macs::KMAC128,(uint8_t)Macs::KMAC256,(uint8_t)Macs::KMAC512,(uint8_t)Macs::Poly1305}); } //@ reach=1 b="every member; every byte value for the names"
ENTRY c28_mcelieceparameters(){ all<McElieceParameters,McElieceParameterConvert>({(uint8_t)McElieceParameters::MPKCS3N4608T96,(uint8_t)McElieceParameters::MPKCS3N6960T119,(uint8_t)McElieceParameters::MPKCS4N6688T128,(uint8_t)McElieceParameters::MPKCS5N8192T128}); } //@ reach=1 b="every member; every byte value for the names"
ENTRY c28_paddingmodes(){ all<PaddingModes,PaddingModeConvert>({(uint8_t)PaddingModes::ESP,(uint8_t)PaddingModes::PKCS7,(uint8_t)PaddingModes::X923,(uint8_t)PaddingModes::ZeroOne}); } //@ reach=1 b="every member; every byte value for the names"
ENTRY c28_prngs(){ all<Prngs,PrngConvert>({(uint8_t)Prngs::BCR,(uint8_t)Prngs::CSR,(uint8_t)Prngs::CSRC512,(uint8_t)Prngs::CSRC1024,(uint8_t)Prngs::HCR,(uint8_t)Prngs::HCRS512}); } //@ reach=1 b="every member; every byte value for the names"
ENTRY c28_providers(){ all<Providers,ProviderConvert>({(uint8_t)Providers::ACP,(uint8_t)Providers::CJP,(uint8_t)Providers::CSP,(uint8_t)Providers::ECP,(uint8_t)Providers::RDP}); } //@ reach=1 b="every member; every byte value for the names"
ENTRY c28_sha2digests(){ all<SHA2Digests,SHA2DigestConvert>({(uint8_t)SHA2Digests::SHA2256,(uint8_t)SHA2Digests::SHA2512}); } //@ reach=1 b="every member; every byte value for the names"
ENTRY c28_securitypolicy(){ all<SecurityPolicy,SecurityPolicyConvert>({(uint8_t)SecurityPolicy::SPL256,(uint8_t)SecurityPolicy::SPL256AE,(uint8_t)SecurityPolicy::SPL512,(uint8_t)SecurityPolicy::SPL512AE,(uint8_t)SecurityPolicy::SPL1024,(uint8_t)SecurityPolicy::SPL1024AE}); } //@ reach=1 b="every member; every byte value for the names"
ENTRY c28_shakemodes(){ all<ShakeModes,ShakeModeConvert>({(uint8_t)ShakeModes::SHAKE128,(uint8_t)ShakeModes::SHAKE256,(uint8_t)ShakeModes::SHAKE512}); } //@ reach=1 b="every member; every byte value for the names"
ENTRY c28_sphincsplusparameters(){ all<SphincsPlusParameters,SphincsPlusParameterConvert>({(uint8_t)SphincsPlusParameters::SPXPS1S128SHAKE,(uint8_t)SphincsPlusParameters::SPXPS3S192SHAKE,(uint8_t)SphincsPlusParameters::SPXPS5S256SHAKE,(uint8_t)SphincsPlusParameters::SPXPS6S512SHAKE}); } //@ reach=1 b="every member; every byte value for the names"
ENTRY c28_streamauthenticators(){ all<StreamAuthenticators,StreamAuthenticatorConvert>({(uint8_t)StreamAuthenticators::KPA,(uint8_t)StreamAuthenticators::KMAC,(uint8_t)StreamAuthenticators::HMACSHA2256,(uint8_t)StreamAuthenticators::HMACSHA2512,(uint8_t)StreamAuthenticators::KMAC256,(uint8_t)StreamAuthenticators::KMAC512,(uint8_t)StreamAuthenticators::Poly1305}); } //@ reach=1 b="every member; every byte value for the names"
ENTRY c28_streamciphers(){ all<StreamCiphers,StreamCipherConvert>({(uint8_t)StreamCiphers::ChaChaP20,(uint8_t)StreamCiphers::CSXR20K256,(uint8_t)StreamCiphers::CSX512,(uint8_t)StreamCiphers::CSXR80K512,(uint8_t)StreamCiphers::RCS,(uint8_t)StreamCiphers::RCSK256,(uint8_t)StreamCiphers::RCSK512,(uint8_t)StreamCiphers::RCSK1024,(uint8_t)StreamCiphers::RWS,(uint8_t)StreamCiphers::RWSK256,(uint8_t)StreamCiphers::RWSK512,(uint8_t)StreamCiphers::RWSK1024,(uint8_t)StreamCiphers::TSX256,(uint8_t)StreamCiphers::TSXR72K256,(uint8_t)StreamCiphers::TSX512,(uint8_t)StreamCiphers::TSXR96K512,(uint8_t)StreamCiphers::TSX1024,(uint8_t)StreamCiphers::TSXR120K512}); } //@ reach=1 b="every member; every byte value for the names"
ENTRY c28_symmetricciphers(){ all<SymmetricCiphers,SymmetricCipherConvert>({(uint8_t)SymmetricCiphers::AES,(uint8_t)SymmetricCiphers::Serpent,(uint8_t)SymmetricCiphers::RHXH256,(uint8_t)SymmetricCiphers::RHXH512,(uint8_t)SymmetricCiphers::RHXS256,(uint8_t)SymmetricCiphers::RHXS512,(uint8_t)SymmetricCiphers::SHXH256,(uint8_t)SymmetricCiphers::SHXH512,(uint8_t)SymmetricCiphers::SHXS256,(uint8_t)SymmetricCiphers::SHXS512,(uint8_t)SymmetricCiphers::ChaChaP20,(uint8_t)SymmetricCiphers::CSXR20K256,(uint8_t)SymmetricCiphers::CSX512,(uint8_t)SymmetricCiphers::CSXR80K512,(uint8_t)SymmetricCiphers::RCS,(uint8_t)SymmetricCiphers::RCSK256,(uint8_t)SymmetricCiphers::RCSK512,(uint8_t)SymmetricCiphers::RCSK1024,(uint8_t)SymmetricCiphers::RWS,(uint8_t)SymmetricCiphers::RWSK256,(uint8_t)SymmetricCiphers::RWSK512,(uint8_t)SymmetricCiphers::RWSK1024,(uint8_t)SymmetricCiphers::TSX256,(uint8_t)SymmetricCiphers::TSXR72K256,(uint8_t)SymmetricCiphers::TSX512,(uint8_t)SymmetricCiphers::TSXR96K512,(uint8_t)SymmetricCiphers::TSX1024,(uint8_t)SymmetricCiphers::TSXR120K512}); } //@ reach=1 b="every member; every byte value for the names"
ENTRY c28_threefishmodes(){ all<ThreefishModes,ThreefishModeConvert>({(uint8_t)ThreefishModes::TSX256,(uint8_t)ThreefishModes::TSXR72K256,(uint8_t)ThreefishModes::TSX512,(uint8_t)ThreefishModes::TSXR96K512,(uint8_t)ThreefishModes::TSX1024,(uint8_t)ThreefishModes::TSXR120K512}); } //@ reach=1 b="every member; every byte value for the names"
ENTRY c28_xmssparameters(){ all<XmssParameters,XmssParameterConvert>({(uint8_t)XmssParameters::XMSSSHA2256H10,(uint8_t)XmssParameters::XMSSSHA2256H16,(uint8_t)XmssParameters::XMSSSHA2256H20,(uint8_t)XmssParameters::XMSSSHA2512H10,(uint8_t)XmssParameters::XMSSSHA2512H16,(uint8_t)XmssParameters::XMSSSHA2512H20,(uint8_t)XmssParameters::XMSSSHAKE256H10,(uint8_t)XmssParameters::XMSSSHAKE256H16,(uint8_t)XmssParameters::XMSSSHAKE256H20,(uint8_t)XmssParameters::XMSSSHAKE512H10,(uint8_t)XmssParameters::XMSSSHAKE512H16,(uint8_t)XmssParameters::XMSSSHAKE512H20,(uint8_t)XmssParameters::XMSSMTSHA2256H20D2,(uint8_t)XmssParameters::XMSSMTSHA2256H20D4,(uint8_t)XmssParameters::XMSSMTSHA2256H40D2,(uint8_t)XmssParameters::XMSSMTSHA2256H40D4,(uint8_t)XmssParameters::XMSSMTSHA2256H40D8,(uint8_t)XmssParameters::XMSSMTSHA2256H60D3,(uint8_t)XmssParameters::XMSSMTSHA2256H60D6,(uint8_t)XmssParameters::XMSSMTSHA2256H60D12,(uint8_t)XmssParameters::XMSSMTSHA2512H20D2,(uint8_t)XmssParameters::XMSSMTSHA2512H20D4,(uint8_t)XmssParameters::XMSSMTSHA2512H40D2,(uint8_t)XmssParameters::XMSSMTSHA2512H40D4,(uint8_t)XmssParameters::XMSSMTSHA2512H40D8,(uint8_t)XmssParameters::XMSSMTSHA2512H60D3,(uint8_t)XmssParameters::XMSSMTSHA2512H60D6,(uint8_t)XmssParameters::XMSSMTSHA2512H60D12,(uint8_t)XmssParameters::XMSSMTSHAKE256H20D2,(uint8_t)XmssParameters::XMSSMTSHAKE256H20D4,(uint8_t)XmssParameters::XMSSMTSHAKE256H40D2,(uint8_t)XmssParameters::XMSSMTSHAKE256H40D4,(uint8_t)XmssParameters::XMSSMTSHAKE256H40D8,(uint8_t)XmssParameters::XMSSMTSHAKE256H60D3,(uint8_t)XmssParameters::XMSSMTSHAKE256H60D6,(uint8_t)XmssParameters::XMSSMTSHAKE256H60D12,(uint8_t)XmssParameters::XMSSMTSHAKE512H20D2,(uint8_t)XmssParameters::XMSSMTSHAKE512H20D4,(uint8_t)XmssParameters::XMSSMTSHAKE512H40D2,(uint8_t)XmssParameters::XMSSMTSHAKE512H40D4,(uint8_t)XmssParameters::XMSSMTSHAKE512H40D8,(uint8_t)XmssParameters::XMSSMTSHAKE512H60D3,(uint8_t)XmssParameters::XMSSMTSHAKE512H60D6,(uint8_t)XmssParameters::XMSSMTSHAKE512H60D12}); } //@ reach=1 b="every member; every byte value for the names"
template<class P> static void same(P&a,P&b,const char*m){ Bytes x=a.ToBytes(),y=b.ToBytes(); assertEq(x,y,m); }
template<class P> static void rt(size_t n,size_t osz,int at,int w,size_t u=0){ Bytes in=symBytes(n,"in"); for(int i=0;i<w;i++) in[at+i]=(uint8_t)(osz>>(8*i)); P p(in); Bytes o=p.ToBytes(); sym_assert(o.size()==n,"size"); sym_assert_eq(o.data(),in.data(),u?u:n,"reading a block and writing it back"); P c=p.Clone(); same(p,c,"clone"); std::unique_ptr<P> d(p.DeepCopy()); same(p,*d,"deep copy"); sym_assert(p.Equals(c),"a copy is equal"); sym_reach(1); }
template<class P> static void eq(size_t n,size_t osz,int at,int w,size_t u=0){ Bytes a=symBytes(n,"a"),b=symBytes(n,"b"); for(int i=0;i<w;i++) a[at+i]=b[at+i]=(uint8_t)(osz>>(8*i)); P p(a),q(b); bool e=p.Equals(q); bool s=sym_eq(a.data(),b.data(),u?u:n); sym_assert(e==s,"equality compares every field"); sym_reach(1); }
ENTRY c28_sha2p(){ size_t o=sym_choose(1,2)*32; rt<SHA2Params>(o==32?136:72,o,6,8); } //@ reach=1 b="SHA2 block, output 32/64, every other field arbitrary"
ENTRY c28_keccakp(){ size_t o=sym_choose(0,2); o=32u<<o; rt<KeccakParams>(o==32?136:72,o,6,8); } //@ reach=1 b="Keccak block, output 32/64/128"
ENTRY c28_skeinp(){ size_t o=32u<<sym_choose(0,2); rt<SkeinParams>(o,o,8,8); } //@ reach=1 b="Skein block, output 32/64/128"
ENTRY c28_blakep(){ size_t o=32u<<sym_choose(0,1); rt<BlakeParams>(o,o,0,1,o==32?24:52); } //@ reach=1 b="Blake block, output 32/64, all fields (24 and 52 bytes)"
ENTRY c28_sha2eq(){ size_t o=sym_choose(1,2)*32; eq<SHA2Params>(o==32?136:72,o,6,8); } //@ reach=1 b="two arbitrary SHA2 blocks"
ENTRY c28_keccakeq(){ size_t o=32u<<sym_choose(0,2); eq<KeccakParams>(o==32?136:72,o,6,8); } //@ reach=1 b="two arbitrary Keccak blocks"
ENTRY c28_skeineq(){ size_t o=32u<<sym_choose(0,2); eq<SkeinParams>(o,o,8,8); } //@ reach=1 b="two arbitrary Skein blocks"
ENTRY c28_blakeeq(){ size_t o=32u<<sym_choose(0,1); eq<BlakeParams>(o,o,0,1,o==32?24:52); } //@ reach=1 b="two arbitrary Blake blocks"
// every field set on its own reaches its place in the block
static uint64_t ld(const Bytes&b,size_t o,int w){ uint64_t r=0; for(int i=0;i<w;i++) r|=(uint64_t)b[o+i]<<(8*i); return r; }
ENTRY c28_sha2f(){ size_t o=sym_choose(1,2)*32,dl=o==32?112:48; uint32_t no=sym_u64("no"),lf=sym_u64("lf"); uint16_t ve=sym_u64("ve"); uint8_t fo=sym_u64("fo"),td=sym_u64("td"); Bytes d=symBytes(dl,"d"),d2=d; SHA2Params p(no,o,ve,lf,fo,td,d2); Bytes b=p.ToBytes(); sym_assert(ld(b,0,4)==no&&ld(b,4,2)==ve&&ld(b,6,8)==o&&ld(b,14,4)==lf&&b[18]==td&&b[19]==fo&&ld(b,20,4)==0,"fields"); sym_assert_eq(&b[24],d.data(),dl,"code"); sym_assert(b.size()==24+dl,"size"); p.NodeOffset()=lf; p.LeafSize()=no; p.Version()=(uint16_t)no; p.FanOut()=td; p.Reserved()=no; b=p.ToBytes(); sym_assert(ld(b,0,4)==lf&&ld(b,4,2)==(uint16_t)no&&ld(b,14,4)==no&&b[19]==td&&ld(b,20,4)==no,"accessors"); sym_reach(1); } //@ reach=1 b="every field value"
ENTRY c28_keccakf(){ size_t o=32u<<sym_choose(0,2),dl=o==32?112:48; uint32_t no=sym_u64("no"),lf=sym_u64("lf"); uint16_t ve=sym_u64("ve"); uint8_t fo=sym_u64("fo"),td=sym_u64("td"); Bytes d=symBytes(dl,"d"),d2=d; KeccakParams p(no,o,ve,lf,fo,td,d2); Bytes b=p.ToBytes(); sym_assert(ld(b,0,4)==no&&ld(b,4,2)==ve&&ld(b,6,8)==o&&ld(b,14,4)==lf&&b[18]==td&&b[19]==fo&&ld(b,20,4)==0,"fields"); sym_assert_eq(&b[24],d.data(),dl,"code"); sym_assert(b.size()==24+dl,"size"); p.NodeOffset()=lf; p.LeafSize()=no; p.Version()=(uint16_t)no; p.FanOut()=td; p.Reserved()=no; b=p.ToBytes(); sym_assert(ld(b,0,4)==lf&&ld(b,4,2)==(uint16_t)no&&ld(b,14,4)==no&&b[19]==td&&ld(b,20,4)==no,"accessors"); sym_reach(1); } //@ reach=1 b="every field value"
ENTRY c28_skeinf(){ size_t o=32u<<sym_choose(0,2); uint8_t lf=sym_u64("lf"),fo=sym_u64("fo"),td=sym_u64("td"); uint16_t ve=sym_u64("ve"); Bytes s=symBytes(4,"s"),d=symBytes(o-24,"d"),d2=d; SkeinParams p(s,o,ve,lf,fo,td,d2); Bytes b=p.ToBytes(); sym_assert(b.size()==o,"size"); sym_assert_eq(b.data(),s.data(),4,"schema"); sym_assert(ld(b,4,2)==ve&&ld(b,6,2)==0&&ld(b,8,8)==o&&b[16]==lf&&b[17]==td&&b[18]==fo&&b[19]==0&&ld(b,20,4)==0,"fields"); sym_assert_eq(&b[24],d.data(),o-24,"code"); std::vector<uint64_t> g=p.GetConfig(); sym_assert(g.size()==o/8,"configuration words"); sym_assert(g[0]==ld(b,0,8),"schema and version word"); sym_assert(g[1]==o*8,"output length word, in bits"); for(size_t i=3;i<g.size();i++) sym_assert(g[i]==ld(b,8*i,8),"code words"); sym_reach(1); } //@ reach=1 b="every field value"
ENTRY c28_blakef(){ size_t o=32u<<sym_choose(0,1),dl=o-20-4; if(o==32) dl=12; else dl=40; uint8_t kl=sym_u64("kl"),fo=sym_u64("fo"),md=sym_u64("md"),no=sym_u64("no"),nd=sym_u64("nd"),il=sym_u64("il"); uint32_t lf=sym_u64("lf"); Bytes d=symBytes(dl,"d"),d2=d; BlakeParams p((uint8_t)o,kl,fo,md,lf,no,nd,il,d2); Bytes b=p.ToBytes(); sym_assert(b.size()==o&&b[0]==o&&b[1]==kl&&b[2]==fo&&b[3]==md&&ld(b,4,4)==lf&&b[8]==no&&b[9]==nd&&b[10]==il&&b[11]==0,"fields"); sym_assert_eq(&b[12],d.data(),dl,"code"); p.Reserved()=kl; p.KeyLength()=il; p.InnerLength()=kl; p.FanOut()=md; p.MaxDepth()=fo; p.NodeDepth()=no; p.NodeOffset()=nd; p.LeafLength()=~lf; b=p.ToBytes(); sym_assert(b[1]==il&&b[2]==md&&b[3]==fo&&ld(b,4,4)==(uint32_t)~lf&&b[8]==nd&&b[9]==no&&b[10]==kl&&b[11]==kl,"accessors"); sym_reach(1); } //@ reach=1 b="every field value"
