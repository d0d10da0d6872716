"""Writes spec/Keys.tla and spec/KeysPriv.tla from keys.json."""
import json, base64, os
d = os.path.dirname(os.path.abspath(__file__))
k = json.load(open(d + "/keys.json"))
ids = ["rsa_a", "rsa_b", "rsa_c", "rsa_d", "rsa_e", "ed_a", "ed_b", "ed_n", "ed_p", "ed_m", "rsa_t", "rsa_u"] + sorted(i for i in k if i[:4] == "rsa_" and i[4:].isdigit())
def pem(s): return base64.b64decode("".join(l for l in s.splitlines() if "-----" not in l)).hex()
priv = {i: pem(k[i]["pem8"]) if i[0] == "r" else k[i]["seed"] for i in ids}
open(d + "/../spec/KeysPriv.tla", "w").write(
 "------------------------------ MODULE KeysPriv ------------------------------\n"
 "(* The private halves, for the ideal signer: PKCS#8 or seed, in hex. *)\nEXTENDS Keys\n"
 "KeyPriv == " + "\n       @@ ".join(f'("{i}" :> "{priv[i]}")' for i in ids) +
 "\nSignWith(kid, hash, octets) == IF KeyType[kid] = \"rsa\" THEN RsaSign(KeyPriv[kid], hash, octets)\n"
 "                               ELSE EdSign(KeyPriv[kid], Sha(hash, octets))\n"
 "=============================================================================\n")

open(d + "/../spec/Keys.tla", "w").write(
 "-------------------------------- MODULE Keys --------------------------------\n"
 "(* The key pairs of keys/keys.json: type and public key (SPKI or raw).       *)\nEXTENDS DkimJ, TLC\n"
 "KeyType == " + " @@ ".join(f'("{i}" :> "{"rsa" if i[0] == "r" else "ed25519"}")' for i in ids) +
 "\nKeyPub == " + "\n       @@ ".join(f'("{i}" :> Hex("{k[i]["spki" if i[0] == "r" else "pub"]}"))' for i in ids) +
 "\n\\* the octets of keys too small for some digests; PKCS #1 needs 46 for SHA-1 and 62 for SHA-256\n"
 "SmallKey == (\"rsa_t\" :> 32) @@ (\"rsa_u\" :> 61)\n"
 "FitsKey(kid, digest) == kid \\in DOMAIN SmallKey => SmallKey[kid] >= (IF digest = \"sha1\" THEN 46 ELSE 62)"
 "\n=============================================================================\n")
