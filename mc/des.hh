// Reference for encrypted files: DES in CBC mode with initial vector 0; the last block is
// partial (0 to 7 bytes), padded with anything, its last byte is the number of bytes.  Uses libcrypto.
#pragma once
#include <string>
#include <string.h>
#pragma GCC diagnostic ignored "-Wdeprecated-declarations"
#include <openssl/des.h>
namespace des {
typedef std::string Str;
// typed key -> 8 bytes; false if invalid
inline bool expand(const Str &k, Str &key) {
  int base = k.size() > 1 && k[0] == '0' ? (k[1] == 'x' || k[1] == 'X' ? 16 : k[1] == 'b' || k[1] == 'B' ? 2 : 0) : 0;
  key.assign(8, 0);
  if (base) {
    size_t n = base == 16 ? 16 : 64, per = n / 8;
    if (k.size() < n + 2) return false;
    for (size_t i = 0; i < n; ++i) {
      const char *d = "0123456789abcdef"; const char *p = k[i + 2] ? strchr(d, tolower(k[i + 2])) : nullptr;
      if (!p || p - d >= base) return false;
      key[i / per] = (char) ((unsigned char) key[i / per] * base + (p - d));
    }
    return true;
  }
  for (size_t i = 0; i < 8 && i < k.size(); ++i) key[i] = k[i];
  for (auto &c : key) c = __builtin_popcount(c & 0x7f) & 1 ? c & 0x7f : c | 0x80;
  return true;
}
inline Str crypt(const Str &in, const Str &key, int enc) {
  DES_cblock k, iv; memcpy(k, key.data(), 8); memset(iv, 0, 8); DES_set_odd_parity(&k);
  DES_key_schedule s; DES_set_key_unchecked(&k, &s); Str o(in.size(), 0);
  DES_ncbc_encrypt((const unsigned char *) in.data(), (unsigned char *) &o[0], (long) in.size(), &s, &iv, enc);
  return o;
}
inline Str encrypt(const Str &t, const Str &key, char pad = '#') {
  if (t.empty()) return "";
  Str p = t; size_t n = p.size() % 8; p.resize(p.size() / 8 * 8 + 8, pad); p.back() = (char) n;
  return crypt(p, key, DES_ENCRYPT);
}
// text decrypted (up to the error, if any); why: message or null
inline Str decrypt(const Str &c, const Str &key, const char *&why) {
  why = nullptr; size_t w = c.size() / 8 * 8; Str t = w ? crypt(c.substr(0, w), key, DES_DECRYPT) : Str();
  if (w < c.size()) { why = "Decryption failed (incomplete block)"; return t; }
  if (t.empty()) return t;
  unsigned char n = t.back();
  if (n > 7) { why = "Decryption failed (block corrupted)"; n = 0; }
  t.resize(w - 8 + n);
  return t;
}
// Files written by the editor under a key are kept by the model as TAG key text.
static const char TAG[] = "\1ENC";
inline bool tagged(const Str &s) { return s.compare(0, 4, TAG) == 0; }
inline Str tag(const Str &key, const Str &text) { return text.empty() ? Str() : TAG + key + text; }
// observed contents, in the form of the model if they are a correct encryption of the same text
inline Str norm(const Str &want, const Str &got) {
  if (!tagged(want)) return got;
  const char *why; Str t = decrypt(got, want.substr(4, 8), why);
  return why || got.size() != t.size() / 8 * 8 + 8 || t.empty() ? got : tag(want.substr(4, 8), t);
}
}
