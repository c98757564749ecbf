#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run to regenerate)."""
import json,os
P=[]
def p(id,title,stmt,over,text,why,files,mech,obs=None):
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=["CEX/"+f for f in files],mechanism=[dict(name=n,where="CEX/"+w) for n,w in mech],observe_at=obs or [])))
KAT="The existing tests run known-answer vectors and a few random round trips at a handful of lengths; "
p("C01","Block padding round-trips and stays inside the block",
 "For every padding mode, every block and every legal message length, removing the padding that was added reports exactly the number of padding bytes that were added, the message bytes are untouched, and no byte outside the block is read or written. When the block holds no valid padding the reported padding length never exceeds the block size.",
 ["inputs"],"every block content, every block size up to the bound, every pad position",
 "The padding tests try a few fixed blocks; the property is over all byte contents and all positions.",
 ["PKCS7.cpp","X923.cpp","ESP.cpp","ZeroOne.cpp","IPadding.h"],[("AddPadding/GetBlockLength","PKCS7.cpp")],["IPadding::AddPadding","IPadding::GetBlockLength"])
p("C02","Block cipher modes are correct over any block cipher",
 "For each confidentiality mode (ECB, CBC, CFB, OFB, CTR, ICM), any block cipher, key, nonce and message, encryption produces the mode's standard definition and decryption restores the message. The result is the same at any array offset, in place or out of place where the API permits it, and however a message is split over consecutive calls at the mode's granularity.",
 ["inputs","histories"],"all keys, nonces, plaintexts; lengths, offsets and call splits up to the bounds",
 KAT+"wide/remainder code paths depend on length and call history combinations the vectors do not reach.",
 ["ECB.cpp","CBC.cpp","CFB.cpp","OFB.cpp","CTR.cpp","ICM.cpp"],[("EncryptParallel/DecryptParallel/Generate","CTR.cpp"),("DecryptSegment","CBC.cpp")],["ICipherMode::Transform"])
p("C03","Parallel processing equals sequential processing",
 "For every mode or cipher that can run multi-threaded, the output and the state carried to the next call are the same whether parallel processing is on or off, for any degree of parallelism, block size, message length (including lengths that are not a multiple of the parallel block) and array offset, and whatever order the worker lanes run in.",
 ["inputs","schedules","configurations"],"all data; lane orders, degrees, block sizes, lengths and offsets within the bounds",
 "Tests compare parallel and sequential output on random sizes at offset zero and on this machine's core count only.",
 ["ECB.cpp","CBC.cpp","CFB.cpp","CTR.cpp","ICM.cpp","ChaChaP20.cpp","CSX512.cpp","RCS.cpp","RWS.cpp","TSX256.cpp","TSX512.cpp","TSX1024.cpp"],[("ProcessParallel","CTR.cpp"),("ProcessParallel","ChaChaP20.cpp")],["Transform"])
p("C04","Block counters advance by exact integer addition",
 "Incrementing or increasing a big-endian or little-endian counter of any supported width by any amount equals integer addition modulo the counter width, with carries propagated through every byte, and bytes outside the counter are unchanged. Counter-based modes therefore never reuse a counter block inside one message and continue across calls exactly where they stopped.",
 ["inputs"],"every counter value and every increment",
 "Carry chains longer than a byte or two occur with negligible probability in random tests.",
 ["IntegerTools.h","CTR.cpp","ICM.cpp"],[("BeIncrement8/LeIncrement/BeIncrease8/LeIncreaseW","IntegerTools.h")])
p("C05","GCM is a correct AEAD and never accepts a wrong tag",
 "For any block cipher, key, nonce, associated data and message, GCM output equals the standard's definition, decryption with the right tag restores the message, and decryption with any different tag is rejected. The outcome depends only on the current key, nonce, associated data and message, never on what the same object processed before.",
 ["inputs","histories"],"all keys, nonces, AAD, messages, tags within the length bounds; sequences of initialise/process calls",
 KAT+"re-initialisation histories, AAD/nonce length corners and single-bit tag differences are unexplored.",
 ["GCM.cpp","GHASH.cpp","GMAC.cpp","CMUL.cpp"],[("Transform/Verify/Initialize","GCM.cpp")],["IAeadMode::Transform"])
p("C06","HBA is a correct AEAD and never accepts a wrong tag",
 "For any block cipher, key, nonce, customization and message, an HBA-encrypted message decrypts to the original, and decrypting with any altered ciphertext, tag or associated data is rejected. The outcome depends only on the current key, nonce, associated data and message sequence, never on array offsets or earlier keys of the object.",
 ["inputs","histories"],"all data within length bounds; sequences of calls",
 KAT+"tampering at each position, offset handling and object reuse are sampled only.",
 ["HBA.cpp","SHAKE.cpp","HMAC.cpp","KMAC.cpp"],[("Transform/Verify","HBA.cpp")])
p("C07","Stream ciphers round-trip and are independent of call splitting",
 "For each stream cipher (ChaCha, CSX, RCS, RWS, TSX), key, nonce and message, decrypting an encrypted message restores it, and unauthenticated output is the same at any array offset and however the message is split into calls at block granularity. ChaCha20 output equals RFC 8439's definition with the block counter carried through its full width.",
 ["inputs","histories"],"all keys, nonces, messages within length bounds; call splits",
 KAT+"partial-block, offset and counter-carry combinations are not covered.",
 ["ChaChaP20.cpp","CSX512.cpp","RCS.cpp","RWS.cpp","TSX256.cpp","TSX512.cpp","TSX1024.cpp","ChaCha.h"],[("Process/Generate","ChaChaP20.cpp")],["IStreamCipher::Transform"])
p("C08","Authenticated stream ciphers reject every forged message",
 "With authentication on, each stream cipher accepts a message only when the tag is the one its authenticator computes over exactly the current associated data, ciphertext and their lengths under the key derived from the current key, nonce and info, for every position of a modification, and rejects it otherwise. Associated data, message length and every ciphertext byte all reach the authenticator; the outcome depends only on the current key, nonce, info, associated data and message, never on what the object processed before.",
 ["inputs","histories"],"all keys, messages, AAD, tampering positions in the bounds",
 "Tests flip a bit at most in one place with one length.",
 ["ChaChaP20.cpp","CSX512.cpp","RCS.cpp","RWS.cpp","TSX256.cpp","TSX512.cpp","TSX1024.cpp"],[("Finalize/Transform","ChaChaP20.cpp")])
p("C09","Message digests do not depend on how input is chunked",
 "For every digest (SHA2, SHA3, Blake2, Skein), the hash of a message is the same for any division of the message into update calls and at any array offset, in sequential mode and in parallel tree mode whatever order the lanes run in. After a finalize or a reset the object behaves exactly like a new one.",
 ["inputs","histories"],"all message bytes; message lengths and splits around every block boundary within the bounds",
 "Tests use a few fixed messages and chunkings.",
 ["SHA2256.cpp","SHA2512.cpp","SHA3256.cpp","SHA3512.cpp","Blake256.cpp","Blake512.cpp","Skein256.cpp","Skein512.cpp","Skein1024.cpp"],[("Update/Finalize/HashFinal","SHA2256.cpp")],["IDigest::Update","IDigest::Finalize"])
p("C10","Digests equal their published definitions",
 "SHA-256, SHA-512 and SHA3-256/512 return, for every message up to the bound, the value of the FIPS 180-4 / FIPS 202 definition; Blake2 returns RFC 7693's value. All implementation variants of a permutation (compact, unrolled, SIMD) compute the same function.",
 ["inputs","configurations"],"every message within the length bound, every permutation input",
 "Tests compare a few vectors, and permutation variants on random inputs.",
 ["SHA2.h","SHA2.cpp","Keccak.cpp","Blake.h","Skein.h"],[("PermuteR64P512U/C","SHA2.h")])
p("C11","Extendable output and MAC output is a prefix-consistent stream",
 "SHAKE/cSHAKE generation returns the FIPS 202 / SP 800-185 byte stream: output of any length is a prefix of any longer output for the same input, at any output offset, and re-initialisation with new key, customization and name erases all influence of earlier inputs.",
 ["inputs","histories"],"all keys, customization and names within length bounds; all output lengths",
 KAT+"rate-boundary lengths and reuse histories are not explored.",
 ["SHAKE.cpp","Keccak.cpp"],[("Generate/Initialize","SHAKE.cpp")])
p("C12","MACs are chunking-independent, re-keyable and match their definitions",
 "HMAC, KMAC, CMAC, GMAC, KPA and Poly1305 return, for every key and message, the value of their standard's definition, the same for every split of the message into update calls and any offset. After finalize and re-initialisation the result depends only on the new key and message.",
 ["inputs","histories"],"all keys and messages within length bounds; splits; re-key sequences",
 KAT+"block-boundary splits and re-key histories are sampled.",
 ["HMAC.cpp","KMAC.cpp","CMAC.cpp","GMAC.cpp","KPA.cpp","Poly1305.cpp"],[("Update/Finalize/Initialize","CMAC.cpp")],["IMac::Compute"])
p("C13","Key derivation functions match their definitions at every length",
 "HKDF, KDF2, PBKDF2, SHAKE-KDF and SCBKDF return the derived bytes of their definition for any key, salt, info and output length, at any output offset and into standard or secure vectors, continue the stream over requests of whole blocks, and write nothing outside the requested range. Re-initialisation leaves no influence of an earlier key, salt or info, and documented output and memory limits are exact.",
 ["inputs","histories"],"all keys, salts and infos in bounds; output lengths and splits",
 KAT+"partial final blocks, offsets and several-call sequences are not explored.",
 ["HKDF.cpp","KDF2.cpp","PBKDF2.cpp","SHAKE.cpp","SCBKDF.cpp"],[("Expand/Generate","HKDF.cpp")])
p("C14","Deterministic random generators follow seed and nonce exactly",
 "For each deterministic generator (BCG, CSG, HCG) the output depends only on seed, nonce, personalization, key updates, the entropy drawn from the provider and the sequence of requests, follows the documented construction, is the same at any output offset and whether or not it is produced in parallel, fills every requested byte and nothing else, and never repeats internal counter blocks between requests. All entropy drawn for a reseed enters the state.",
 ["inputs","histories"],"all seeds; request length sequences within bounds; provider outputs arbitrary",
 "Tests check statistical quality and fixed vectors.",
 ["BCG.cpp","CSG.cpp","HCG.cpp"],[("Generate/GenerateBlock","BCG.cpp")])
p("C15","Key containers round-trip and report what they hold",
 "A symmetric or asymmetric key (plain or secure) returns exactly the key, nonce and info it was built from, reports their sizes, clones to an equal key, is empty after a reset, and survives serialization and deserialization unchanged, for every content and every legal length. A secure key protected by a passphrase and salt unseals to the original only with those and detects altered content where its policy authenticates.",
 ["inputs"],"all contents and sizes within the bounds",
 "Tests serialize one or two random keys.",
 ["SymmetricKey.cpp","SymmetricSecureKey.cpp","AsymmetricKey.cpp","AsymmetricSecureKey.cpp","SymmetricKeySize.cpp"],[("Serialize/DeSerialize","SymmetricKey.cpp")])
p("C16","Byte streams return what was written, in order and in range",
 "Memory and secure streams behave as a byte array with a position: reads return the bytes written, never go past the end or past the requested count, seek and length changes act as documented, sealing and unsealing a secure stream restores its content, and the typed reader and writer round-trip every value at every position.",
 ["inputs","histories"],"all byte contents; operation sequences and lengths within bounds",
 "Tests copy a buffer or two.",
 ["MemoryStream.cpp","SecureStream.cpp","StreamReader.h","StreamWriter.h","StreamReader.cpp","StreamWriter.cpp"],[("Read/Write/Seek","MemoryStream.cpp")])
p("C17","Lattice KEM arithmetic is exact",
 "Modular reduction, number-theoretic transform, packing and compression of the ring KEM compute exactly the function of the specification for every coefficient value that can occur, without overflow, and packing then unpacking restores every polynomial.",
 ["inputs"],"every coefficient value in range",
 "KATs exercise a vanishing fraction of coefficient values.",
 ["KyberBase.cpp"],[("MontgomeryReduce/BarrettReduce/PolyCompress","KyberBase.cpp")])
p("C18","Lattice signature arithmetic, rounding and hints are exact",
 "In the lattice signature scheme, reduction, decomposition, hint creation and use, and every packing function compute the specified function for all coefficients; using a hint made for a value recovers exactly its high bits, and packing then unpacking restores every polynomial.",
 ["inputs"],"every coefficient value in range",
 "KATs exercise a vanishing fraction of coefficient values.",
 ["DLTMPolyMath.cpp","DLTMK5Q8380417N256.cpp","DLTMK6Q8380417N256.cpp"],[("Decompose/MakeHint/UseHint","DLTMPolyMath.cpp")])
p("C19","Code-based KEM field arithmetic is exact",
 "Addition, multiplication, squaring, inversion and division in the binary field used by the code-based KEM satisfy the field definition for every pair of elements, and the bit-sliced vector forms agree with the scalar forms lane by lane. Polynomial products and evaluation, bit-matrix transposition, the syndrome of an error vector, error-vector generation, the permutation network and the sorting network built on them compute their definitions.",
 ["inputs"],"every pair of field elements",
 "No test touches the field arithmetic directly.",
 ["MPKCN4608T96.cpp","MPKCN6688T128.cpp","MPKCN6960T119.cpp","MPKCN8192T128.cpp","MPKCUtils.cpp","GfVector.h"],[("Multiply/Square/Invert","MPKCUtils.cpp")])
p("C20","Decapsulation and verification decide on every byte",
 "Byte comparisons that decide acceptance (tags, re-encrypted ciphertexts, signatures) return equal exactly when every byte in range is equal and select the right secret in constant time, whatever the values, lengths and offsets.",
 ["inputs"],"all byte contents, lengths and offsets in bounds",
 "A wrong comparison is only seen for the exact positions it ignores.",
 ["IntegerTools.h","KyberBase.cpp","MemoryTools.h","MPKCUtils.cpp"],[("Compare/Verify","IntegerTools.h")])
p("C21","Elliptic-curve field and scalar arithmetic is exact",
 "Field encoding, decoding, addition, subtraction, multiplication by small constants, scalar reduction checks and conditional moves of the Curve25519 code compute the specified values for every input, and encoded values are always canonical.",
 ["inputs"],"every field element representation within the documented limb bounds",
 "Carry corner cases have negligible probability in random tests.",
 ["EC25519.cpp","ECDSABase.cpp","ECDHBase.cpp"],[("fe25519 / sc25519 routines","EC25519.cpp")])
p("C22","Hash-based signature building blocks follow their definition",
 "Address words, base-w expansion, checksums, byte conversions and tree index arithmetic of the hash-based signature schemes follow the specification for every input, so that a signature produced at any leaf index verifies.",
 ["inputs"],"all messages, indices and address values within bounds",
 "KATs exercise a handful of leaf indices.",
 ["SPXBase.cpp","XmssCore.cpp","XmssUtils.cpp"],[("base-w / checksum / addresses","XmssCore.cpp")])
p("C23","Memory and integer primitives compute what their name says",
 "Copy, clear, set, xor, and, or, compare, endian conversion, rotation, shift-free selection and bit scan helpers affect exactly the requested range and compute exactly the stated function for every length, offset and content.",
 ["inputs"],"all contents; every length and offset around each vector width",
 "The vector/remainder split depends on the length; tests use a few random lengths.",
 ["MemoryTools.h","IntegerTools.h"],[("Copy/Clear/XOR/SetValue","MemoryTools.h")])
p("C24","SIMD integer types act as independent lanes",
 "Every arithmetic, logical, shift, rotation, comparison, load and store operation of the wide integer types gives in each lane exactly the result of the corresponding scalar operation as documented; the 128-bit integer used by Poly1305 (Donna128) computes exact 128-bit arithmetic.",
 ["inputs"],"every lane value and every shift/rotation count",
 "Tests check few values per operator.",
 ["UInt128.h","UInt256.h","ULong256.h","UShort128.h"],[("operators","UInt256.h")])
p("C25","Carry-less multiplication variants agree",
 "All variants of the GF(2^128) multiplication used for authentication (portable, table, hardware) compute the product defined by SP 800-38D for every pair of field elements, and GHASH over a message gives the same value for every split of the message into updates.",
 ["inputs","configurations"],"every pair of field elements",
 "Tests compare random pairs on one variant.",
 ["CMUL.cpp","GHASH.cpp"],[("Multiply","CMUL.cpp")])
p("C26","Block ciphers are permutations and batch width does not matter",
 "Decrypting an encrypted block restores it for every key and block, Rijndael with standard key sizes is AES, and transforming 2, 4, 8 or 16 blocks at once equals transforming each block alone, at any array offset.",
 ["inputs","configurations"],"all keys and blocks",
 KAT+"no test quantifies over keys and blocks.",
 ["RHX.cpp","SHX.cpp","Rijndael.h","Serpent.h","ChaCha.h","Threefish.h"],[("Encrypt128/Decrypt128/Transform*","RHX.cpp")])
p("C27","Random value helpers honour the requested range",
 "Whatever bytes the underlying generator delivers, a value requested within a minimum and maximum is always inside them, fills and offsets touch exactly the requested elements, and each helper consumes generator output without reusing it.",
 ["inputs","histories"],"arbitrary generator output, all ranges",
 "Range-edge outputs of a generator are rare in tests.",
 ["SecureRandom.cpp","PrngBase.cpp","BCR.cpp","CSR.cpp","HCR.cpp"],[("NextUInt*","SecureRandom.cpp")])
p("C28","Enumeration names and parameter blocks round-trip",
 "Converting any enumeration member to its name and back returns the same member, and serializing a digest tree-hash parameter block and reading it back yields the same parameters for every field value, and two parameter blocks are equal exactly when their contents are.",
 ["inputs"],"every enumeration value and every field value",
 "Tests do not enumerate the members or field values.",
 ["SHA2Params.cpp","KeccakParams.cpp","SkeinParams.cpp","BlakeParams.cpp","SymmetricCiphers.cpp","Digests.cpp","Macs.cpp"],[("ToName/FromName","Digests.cpp"),("ToBytes","SHA2Params.cpp")])
p("C29","Secrets are erased on destruction and reset",
 "When a cipher, MAC, generator, digest or key object is reset or destroyed, every byte of key, state and buffer memory it owned is zero before it is released, for every history of use.",
 ["inputs","histories"],"all keys and use histories within bounds",
 "Freed memory cannot be observed by unit tests.",
 ["SymmetricKey.cpp","SecureMemory.cpp","LockingAllocator.cpp","MemoryTools.h"],[("Clear/destructors","SymmetricKey.cpp")])
p("C30","Secret-dependent decisions leave no branch or address trace",
 "Padding removal, tag and secret comparison and table-based lookup helpers documented as constant-time never branch on, or index memory with, secret bytes.",
 ["inputs"],"all secret values at fixed public lengths",
 "Unit tests do not observe control flow.",
 ["PKCS7.cpp","X923.cpp","ZeroOne.cpp","IntegerTools.h","MPKCUtils.cpp","KyberBase.cpp"],[("Compare/constant-time selects","IntegerTools.h")])
here=os.path.dirname(os.path.abspath(__file__))
open(os.path.join(here,"..","properties.jsonl"),"w").write("".join(json.dumps(x)+"\n" for x in P))
