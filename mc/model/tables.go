package model

import "fmt"

// Registered identifier names (RFC 4880, RFC 6637, RFC 4880bis-10).

const unknown = "Unknown"

func alg(tbl map[int]string, v byte, priv bool, suffix string) string {
	n, ok := tbl[int(v)]
	if !ok {
		n = unknown
	}
	if priv && v >= 100 && v <= 110 {
		n = "Private/Experimental algorithm"
	}
	return fmt.Sprintf("%s (%s %d)", n, suffix, v)
}

var symNames = map[int]string{
	0: "Plaintext or unencrypted data", 1: "IDEA", 2: "TripleDES (168 bit key derived from 192)",
	3: "CAST5 (128 bit key, as per)", 4: "Blowfish (128 bit key, 16 rounds)", 5: "Reserved", 6: "Reserved",
	7: "AES with 128-bit key", 8: "AES with 192-bit key", 9: "AES with 256-bit key", 10: "Twofish with 256-bit key",
	11: "Camellia with 128-bit key", 12: "Camellia with 192-bit key", 13: "Camellia with 256-bit key",
}

var pubNames = map[int]string{
	1: "RSA (Encrypt or Sign)", 2: "RSA Encrypt-Only", 3: "RSA Sign-Only", 16: "Elgamal (Encrypt-Only)",
	17: "DSA (Digital Signature Algorithm)", 18: "ECDH public key algorithm", 19: "ECDSA public key algorithm",
	20: "Reserved (formerly Elgamal Encrypt or Sign)", 21: "Reserved for Diffie-Hellman", 22: "EdDSA",
}

var hashNames = map[int]string{
	1: "MD5", 2: "SHA-1", 3: "RIPE-MD/160", 4: "Reserved", 5: "Reserved", 6: "Reserved", 7: "Reserved",
	8: "SHA2-256", 9: "SHA2-384", 10: "SHA2-512", 11: "SHA2-224", 12: "SHA3-256", 13: "Reserved", 14: "SHA3-512",
}

var compNames = map[int]string{0: "Uncompressed", 1: "ZIP <RFC1951>", 2: "ZLIB <RFC1950>", 3: "BZip2"}

var aeadNames = map[int]string{1: "EAX mode", 2: "OCB mode <RFC7253>"}

var s2kNames = map[int]string{0: "Simple S2K", 1: "Salted S2K", 2: "Reserved", 3: "Iterated and Salted S2K"}

var sigNames = map[int]string{
	0x00: "Signature of a binary document", 0x01: "Signature of a canonical text document", 0x02: "Standalone signature",
	0x10: "Generic certification of a User ID and Public-Key packet", 0x11: "Persona certification of a User ID and Public-Key packet",
	0x12: "Casual certification of a User ID and Public-Key packet", 0x13: "Positive certification of a User ID and Public-Key packet",
	0x16: "Attested Key Signature", 0x18: "Subkey Binding Signature", 0x19: "Primary Key Binding Signature",
	0x1f: "Signature directly on a key", 0x20: "Key revocation signature", 0x28: "Subkey revocation signature",
	0x30: "Certification revocation signature", 0x40: "Timestamp signature", 0x50: "Third-Party Confirmation signature",
}

var subNames = map[int]string{
	0: "Reserved", 1: "Image Attribute", 2: "Signature Creation Time", 3: "Signature Expiration Time",
	4: "Exportable Certification", 5: "Trust Signature", 6: "Regular Expression", 7: "Revocable", 8: "Reserved",
	9: "Key Expiration Time", 10: "Placeholder for backward compatibility", 11: "Preferred Symmetric Algorithms",
	12: "Revocation Key", 13: "Reserved", 14: "Reserved", 15: "Reserved", 16: "Issuer", 17: "Reserved", 18: "Reserved",
	19: "Reserved", 20: "Notation Data", 21: "Preferred Hash Algorithms", 22: "Preferred Compression Algorithms",
	23: "Key Server Preferences", 24: "Preferred Key Server", 25: "Primary User ID", 26: "Policy URI", 27: "Key Flags",
	28: "Signer's User ID", 29: "Reason for Revocation", 30: "Features", 31: "Signature Target", 32: "Embedded Signature",
	33: "Issuer Fingerprint", 34: "Preferred AEAD Algorithms", 35: "Intended Recipient Fingerprint", 36: "Reserved",
	37: "Attested Certifications", 38: "Key Block",
}

var tagNames = map[int]string{
	0: "Reserved", 1: "Public-Key Encrypted Session Key Packet", 2: "Signature Packet",
	3: "Symmetric-Key Encrypted Session Key Packet", 4: "One-Pass Signature Packet", 5: "Secret-Key Packet",
	6: "Public-Key Packet", 7: "Secret-Subkey Packet", 8: "Compressed Data Packet",
	9: "Symmetrically Encrypted Data Packet", 10: "Marker Packet (Obsolete Literal Packet)", 11: "Literal Data Packet",
	12: "Trust Packet", 13: "User ID Packet", 14: "Public-Subkey Packet", 17: "User Attribute Packet",
	18: "Sym. Encrypted Integrity Protected Data Packet", 19: "Modification Detection Code Packet",
	20: "AEAD Encrypted Data Packet", 60: "Private or Experimental Values", 61: "Private or Experimental Values",
	62: "Private or Experimental Values", 63: "Private or Experimental Values",
}

var reasonNames = map[int]string{
	0:  "No reason specified (key revocations or cert revocations)",
	1:  "Key is superseded (key revocations)",
	2:  "Key material has been compromised (key revocations)",
	3:  "Key is retired and no longer used (key revocations)",
	32: "User ID information is no longer valid (cert revocations)",
}

// Curve is one registered curve.
type Curve struct {
	Name string
	OID  []byte
}

// Curves lists the registered curves.
var Curves = []Curve{
	{"nistp256 (256bits key size)", []byte{0x2a, 0x86, 0x48, 0xce, 0x3d, 0x03, 0x01, 0x07}},
	{"nistp384 (384bits key size)", []byte{0x2b, 0x81, 0x04, 0x00, 0x22}},
	{"nistp521 (521bits key size)", []byte{0x2b, 0x81, 0x04, 0x00, 0x23}},
	{"secp256k1 (256bits key size)", []byte{0x2b, 0x81, 0x04, 0x00, 0x0a}},
	{"brainpoolP256r1 (256bits key size)", []byte{0x2b, 0x24, 0x03, 0x03, 0x02, 0x08, 0x01, 0x01, 0x07}},
	{"brainpoolP384r1 (384bits key size)", []byte{0x2b, 0x24, 0x03, 0x03, 0x02, 0x08, 0x01, 0x01, 0x0b}},
	{"brainpoolP512r1 (512bits key size)", []byte{0x2b, 0x24, 0x03, 0x03, 0x02, 0x08, 0x01, 0x01, 0x0d}},
	{"ed25519 (256bits key size)", []byte{0x2b, 0x06, 0x01, 0x04, 0x01, 0xda, 0x47, 0x0f, 0x01}},
	{"cv25519 (256bits key size)", []byte{0x2b, 0x06, 0x01, 0x04, 0x01, 0x97, 0x55, 0x01, 0x05, 0x01}},
}

func curveName(oid []byte) string {
	for _, c := range Curves {
		if string(c.OID) == string(oid) {
			return c.Name
		}
	}
	return unknown
}

func pointName(algo string, mpi []byte) string {
	n := unknown
	if len(mpi) > 0 {
		switch mpi[0] {
		case 0x04:
			n = "uncompressed format"
		case 0x40:
			n = "Native point format of the curve follows"
		case 0x41:
			n = "Only X coordinate follows"
		case 0x42:
			n = "Only Y coordinate follows"
		}
	}
	return fmt.Sprintf("%s EC point (%s)", algo, n)
}

// blockSize of the cipher (0 = unknown cipher).
func blockSize(sym byte) int {
	switch {
	case sym <= 6:
		return 8
	case sym <= 13:
		return 16
	}
	return 0
}

// nonceSize of the AEAD mode.
func nonceSize(aead byte) int {
	switch aead {
	case 1:
		return 16
	case 2:
		return 15
	}
	return 0
}
