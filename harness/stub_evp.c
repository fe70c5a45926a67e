/* A fast stand-in for AES-256 behind the EVP calls rng.c makes: any keyed function of
   the block serves where only the generator's own logic is under test. */
#include <string.h>
#include <stdint.h>
struct ctx { unsigned char k[32]; };
static __thread struct ctx c;
void *EVP_CIPHER_CTX_new(void) { return &c; }
void EVP_CIPHER_CTX_free(void *p) { (void)p; }
const void *EVP_aes_256_ecb(void) { return &c; }
int EVP_CIPHER_CTX_set_padding(void *x, int p) { (void)x; (void)p; return 1; }
int EVP_EncryptInit_ex(void *x, const void *a, void *b, const unsigned char *k, const unsigned char *iv) { (void)x; (void)a; (void)b; (void)iv; if (k) memcpy(c.k, k, 32); return 1; }
static void block(unsigned char *o, const unsigned char *i) {
  uint64_t a, b, k[4]; memcpy(&a, i, 8); memcpy(&b, i + 8, 8); memcpy(k, c.k, 32);
  a = (a ^ k[0]) * 0x9E3779B97F4A7C15ull + k[2]; b = (b + k[1]) * 0xC2B2AE3D27D4EB4Full ^ (a >> 29) ^ k[3]; a += b >> 31;
  memcpy(o, &a, 8); memcpy(o + 8, &b, 8);
}
int EVP_EncryptUpdate(void *x, unsigned char *o, int *l, const unsigned char *in, int n) { int j; (void)x; for (j = 0; j + 16 <= n; j += 16) block(o + j, in + j); *l = n; return 1; }
int EVP_EncryptFinal_ex(void *x, unsigned char *o, int *l) { (void)x; (void)o; *l = 0; return 1; }
void ERR_print_errors_fp(void *f) { (void)f; }
int EVP_CIPHER_CTX_reset(void *x) { (void)x; return 1; }
int EVP_CIPHER_CTX_init(void *x) { (void)x; return 1; }
int EVP_CIPHER_CTX_cleanup(void *x) { (void)x; return 1; }
int EVP_EncryptInit(void *x, const void *a, const unsigned char *k, const unsigned char *iv) { return EVP_EncryptInit_ex(x, a, 0, k, iv); }
int EVP_EncryptInit_ex2(void *x, const void *a, const unsigned char *k, const unsigned char *iv, const void *p) { (void)p; return EVP_EncryptInit_ex(x, a, 0, k, iv); }
int EVP_EncryptFinal(void *x, unsigned char *o, int *l) { return EVP_EncryptFinal_ex(x, o, l); }
int EVP_CipherInit_ex(void *x, const void *a, void *b, const unsigned char *k, const unsigned char *iv, int enc) { (void)enc; return EVP_EncryptInit_ex(x, a, b, k, iv); }
int EVP_CipherUpdate(void *x, unsigned char *o, int *l, const unsigned char *in, int n) { return EVP_EncryptUpdate(x, o, l, in, n); }
int EVP_Cipher(void *x, unsigned char *o, const unsigned char *in, unsigned n) { int l; return EVP_EncryptUpdate(x, o, &l, in, n) ? l : 0; }
void ERR_print_errors(void *f) { (void)f; }
unsigned long ERR_get_error(void) { return 0; }
