// Java implementations ("module overrides") of the operators of DkimJ.tla:
// octet/hex conversion, JSON emission and the cryptographic primitives that
// the specification treats as given.  No DKIM logic lives here.
import tlc2.value.impl.*;
import util.UniqueString;
import java.io.*;
import java.math.BigInteger;
import java.util.Arrays;
import java.nio.charset.StandardCharsets;
import java.security.*;
import java.security.spec.*;

public class DkimJ {
  static byte[] bytes(Value v) {
    TupleValue t = (TupleValue) v.toTuple();
    byte[] b = new byte[t.elems.length];
    for (int i = 0; i < b.length; i++) b[i] = (byte) ((IntValue) t.elems[i]).val;
    return b;
  }
  static final IntValue[] INTS = new IntValue[256];
  static { for (int i = 0; i < 256; i++) INTS[i] = IntValue.gen(i); }
  static Value tuple(byte[] b) {
    Value[] e = new Value[b.length];
    for (int i = 0; i < b.length; i++) e[i] = INTS[b[i] & 0xff];
    return new TupleValue(e);
  }
  public static Value Flat(final Value v) {
    Value t = v.toTuple();
    Value[] e = ((TupleValue) t).elems;
    Value[][] parts = new Value[e.length][];
    int n = 0;
    for (int i = 0; i < e.length; i++) { parts[i] = ((TupleValue) e[i].toTuple()).elems; n += parts[i].length; }
    Value[] r = new Value[n];
    n = 0;
    for (Value[] p : parts) { System.arraycopy(p, 0, r, n, p.length); n += p.length; }
    return new TupleValue(r);
  }
  static String str(Value v) { return ((StringValue) v).val.toString(); }
  static int nib(char c) { return Character.digit(c, 16); }

  public static Value Hex(final Value v) {
    String s = str(v);
    byte[] b = new byte[s.length() / 2];
    for (int i = 0; i < b.length; i++) b[i] = (byte) (nib(s.charAt(2*i)) * 16 + nib(s.charAt(2*i+1)));
    return tuple(b);
  }
  static String hex(byte[] b) {
    StringBuilder sb = new StringBuilder(b.length * 2);
    for (byte x : b) { sb.append(Character.forDigit((x >> 4) & 15, 16)); sb.append(Character.forDigit(x & 15, 16)); }
    return sb.toString();
  }
  public static Value ToHex(final Value v) { return new StringValue(hex(bytes(v))); }

  public static Value Sha(final Value alg, final Value v) throws Exception {
    MessageDigest md = MessageDigest.getInstance(str(alg).equals("sha1") ? "SHA-1" : "SHA-256");
    return tuple(md.digest(bytes(v)));
  }
  static PublicKey rsa(byte[] spki) throws Exception {
    return KeyFactory.getInstance("RSA").generatePublic(new X509EncodedKeySpec(spki));
  }
  // an RSA key in the one DER form it has, of ordinary size
  public static Value RsaKeyOk(final Value spki) {
    try {
      byte[] s = bytes(spki);
      java.security.interfaces.RSAPublicKey k = (java.security.interfaces.RSAPublicKey) rsa(s);
      java.math.BigInteger n = k.getModulus(), e = k.getPublicExponent();
      byte[] same = KeyFactory.getInstance("RSA").generatePublic(new RSAPublicKeySpec(n, e)).getEncoded();
      return Arrays.equals(same, s) && n.testBit(0) && n.bitLength() >= 512 && n.bitLength() <= 4096 && e.testBit(0) && e.bitLength() >= 2 && e.bitLength() <= 32
        ? BoolValue.ValTrue : BoolValue.ValFalse;
    } catch (Exception e) { return BoolValue.ValFalse; }
  }
  // end of the element at i, or -1 (lengths in definite form)
  static int tlv(byte[] s, int i, int tag) {
    if (i + 2 > s.length || s[i] != tag) return -1;
    int l = s[i + 1] & 255, h = 2;
    if (l > 128) {
      int n = l & 127;
      if (n > 4 || i + 2 + n > s.length) return -1;
      long v = 0;
      for (int k = 0; k < n; k++) v = v * 256 + (s[i + 2 + k] & 255);
      if (v > s.length) return -1;
      l = (int) v; h += n;
    }
    return i + h + l > s.length ? -1 : i + h + l;
  }
  static int inside(byte[] s, int i) { return i + 2 + ((s[i + 1] & 255) > 128 ? s[i + 1] & 127 : 0); }
  // octets that no reading makes an RSA key: no sequence, cut short, or a key of another known type
  public static Value RsaKeyNever(final Value spki) {
    byte[] s = bytes(spki);
    if (s.length < 30 || s[0] != 0x30) return BoolValue.ValTrue;
    if ((s[1] & 255) == 128) return BoolValue.ValFalse;
    if (tlv(s, 0, 0x30) < 0) return BoolValue.ValTrue;
    int a = inside(s, 0);
    if (tlv(s, a, 0x30) < 0) return BoolValue.ValFalse;
    int o = inside(s, a), e = tlv(s, o, 6);
    if (e < 0) return BoolValue.ValFalse;
    String oid = hex(Arrays.copyOfRange(s, o, e));
    return oid.equals("06072a8648ce3d0201") || oid.equals("06032b6570") || oid.equals("06072a8648ce380401") ? BoolValue.ValTrue : BoolValue.ValFalse;
  }
  public static Value RsaVerify(final Value spki, final Value alg, final Value msg, final Value sig) {
    try {
      Signature s = Signature.getInstance(str(alg).equals("sha1") ? "SHA1withRSA" : "SHA256withRSA");
      s.initVerify(rsa(bytes(spki)));
      s.update(bytes(msg));
      return s.verify(bytes(sig)) ? BoolValue.ValTrue : BoolValue.ValFalse;
    } catch (Exception e) { return BoolValue.ValFalse; }
  }
  static final byte[] EDP = { 0x30,0x2a,0x30,0x05,0x06,0x03,0x2b,0x65,0x70,0x03,0x21,0x00 };
  public static Value EdVerify(final Value pub, final Value msg, final Value sig) {
    try {
      byte[] p = bytes(pub), d = new byte[EDP.length + p.length];
      System.arraycopy(EDP, 0, d, 0, EDP.length);
      System.arraycopy(p, 0, d, EDP.length, p.length);
      PublicKey k = KeyFactory.getInstance("Ed25519").generatePublic(new X509EncodedKeySpec(d));
      Signature s = Signature.getInstance("Ed25519");
      s.initVerify(k);
      s.update(bytes(msg));
      return s.verify(bytes(sig)) ? BoolValue.ValTrue : BoolValue.ValFalse;
    } catch (Exception e) { return BoolValue.ValFalse; }
  }
  public static Value RsaSign(final Value pkcs8hex, final Value alg, final Value msg) throws Exception {
    byte[] k = bytes(Hex(pkcs8hex));
    Signature s = Signature.getInstance(str(alg).equals("sha1") ? "SHA1withRSA" : "SHA256withRSA");
    s.initSign(KeyFactory.getInstance("RSA").generatePrivate(new PKCS8EncodedKeySpec(k)));
    s.update(bytes(msg));
    return tuple(s.sign());
  }
  public static Value EdSign(final Value seedhex, final Value msg) throws Exception {
    byte[] k = bytes(Hex(new StringValue("302e020100300506032b657004220420" + str(seedhex))));
    Signature s = Signature.getInstance("Ed25519");
    s.initSign(KeyFactory.getInstance("Ed25519").generatePrivate(new PKCS8EncodedKeySpec(k)));
    s.update(bytes(msg));
    return tuple(s.sign());
  }

  // ---- emission of spec behaviours / verdicts as JSON lines ----
  static PrintWriter out;
  static void json(StringBuilder sb, Value v) {
    if (v instanceof IntValue || v instanceof BoolValue) { sb.append(v.toString().toLowerCase()); return; }
    if (v instanceof StringValue) { quote(sb, str(v)); return; }
    if (v instanceof RecordValue) {
      RecordValue r = (RecordValue) v; sb.append('{');
      for (int i = 0; i < r.names.length; i++) {
        if (i > 0) sb.append(',');
        quote(sb, r.names[i].toString()); sb.append(':'); json(sb, r.values[i]);
      }
      sb.append('}'); return;
    }
    Value t = (v instanceof TupleValue) ? v : v.toTuple();
    if (t == null) {
      Value r = v.toRcd();
      if (r != null) { json(sb, r); return; }
      v = (Value) v.toSetEnum();
      sb.append('[');
      if (v != null) { ValueVec e = ((SetEnumValue) v).elems; for (int i = 0; i < e.size(); i++) { if (i > 0) sb.append(','); json(sb, e.elementAt(i)); } }
      sb.append(']'); return;
    }
    Value[] e = ((TupleValue) t).elems; sb.append('[');
    for (int i = 0; i < e.length; i++) { if (i > 0) sb.append(','); json(sb, e[i]); }
    sb.append(']');
  }
  static void quote(StringBuilder sb, String s) {
    sb.append('"');
    for (int i = 0; i < s.length(); i++) {
      char c = s.charAt(i);
      if (c == '"' || c == '\\') sb.append('\\').append(c);
      else if (c < 32) sb.append(String.format("\\u%04x", (int) c));
      else sb.append(c);
    }
    sb.append('"');
  }
  public static synchronized Value Emit(final Value v) throws Exception {
    if (out == null) {
      String f = System.getenv("DKIM_EMIT");
      if (f == null) return BoolValue.ValTrue;
      out = new PrintWriter(new OutputStreamWriter(new BufferedOutputStream(new FileOutputStream(f), 1 << 20), StandardCharsets.UTF_8));
      Runtime.getRuntime().addShutdownHook(new Thread(() -> { synchronized (DkimJ.class) { out.flush(); } }));
    }
    StringBuilder sb = new StringBuilder();
    json(sb, v);
    out.println(sb);
    return BoolValue.ValTrue;
  }
}
