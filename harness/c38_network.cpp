// C38: a network range contains exactly the addresses whose leading bits are those of the range.
#include "mqtt.hpp"
#include "network.h"
static Bytes dec(unsigned v, int digits) { Bytes r; for (int d = digits == 3 ? 100 : digits == 2 ? 10 : 1; d; d /= 10) r += (char)('0' + v / d % 10); return r; }
static void sockaddrOf(int fam, const unsigned char *b, struct sockaddr_storage &ss) { memset(&ss, 0, sizeof ss); fsx_symbolic((char *)&ss + 2, sizeof(struct sockaddr_in6) - 2, "rest of the address"); if (fam == AF_INET) { auto *a = (struct sockaddr_in *)&ss; a->sin_family = AF_INET; memcpy(&a->sin_addr, b, 4); } else { auto *a = (struct sockaddr_in6 *)&ss; a->sin6_family = AF_INET6; memcpy(&a->sin6_addr, b, 16); } }
static bool sameBits(const unsigned char *a, const unsigned char *b, int bits) { unsigned diff = 0; for (int i = 0; i < 16; i++) { int n = bits - 8 * i; if (n <= 0) break; unsigned m = n >= 8 ? 0xff : (0xff00 >> n) & 0xff; diff |= (a[i] ^ b[i]) & m; } return diff == 0; }
// symbolic three-digit octets: the text is built from the digits so that every value is a solver variable
static Bytes octet(unsigned char &v) { char d[3]; fsx_symbolic(d, 3, "digits"); unsigned n = 0; Bytes r; for (int i = 0; i < 3; i++) { fsx_assume((d[i] >= '0') & (d[i] <= '9')); n = n * 10 + (d[i] - '0'); r += d[i]; } fsx_assume(n <= 255); v = n; return r; }
extern "C" void fsx_v4() {
    unsigned char n[16] = {0}, a[16] = {0}; Bytes t; for (int i = 0; i < 4; i++) { if (i) t += '.'; t += octet(n[i]); } int bits = fsx_choice("prefix length", 33); t += "/" + dec(bits, bits > 9 ? 2 : 1); Network net(t); fsx_symbolic(a, 4, "address"); struct sockaddr_storage ss; sockaddrOf(AF_INET, a, ss); bool m = net.match((struct sockaddr *)&ss); bool want = sameBits(n, a, bits); CHECK(m == want, "IPv4 range"); CHECK(net.match((struct sockaddr_in *)&ss) == want, "IPv4 range (typed)"); if (m) COVER("in"); else COVER("out");
    unsigned char b[16]; fsx_symbolic(b, 16, "address 6"); sockaddrOf(AF_INET6, b, ss); CHECK(!net.match((struct sockaddr *)&ss), "other family"); ss.ss_family = AF_UNIX; CHECK(!net.match((struct sockaddr *)&ss), "no family"); }
static void group(unsigned char *v, Bytes &t, bool sym) { char d[4] = {'0', '0', '0', '0'}; if (sym) fsx_symbolic(d, 4, "digits"); unsigned n = 0; for (int i = 0; i < 4; i++) { bool dig = (d[i] >= '0') & (d[i] <= '9'), let = (d[i] >= 'a') & (d[i] <= 'f'); fsx_assume(dig | let); n = n * 16 + (dig ? d[i] - '0' : d[i] - 'a' + 10); t += d[i]; } v[0] = n >> 8; v[1] = n; }
extern "C" void fsx_v6() {
    unsigned char n[16] = {0}, a[16] = {0}; Bytes t; int form = fsx_choice("form", 3); int bits = fsx_choice("prefix length", 129); if (form == 0) { for (int i = 0; i < 8; i++) { if (i) t += ':'; group(n + 2 * i, t, true); } } else if (form == 1) { group(n, t, true); t += "::"; group(n + 14, t, true); } else { t = "::"; group(n + 12, t, true); t += ":"; group(n + 14, t, true); }
    if (fsx_choice("no prefix length", 2)) { fsx_assume(bits == 128); } else t += "/" + dec(bits, bits > 99 ? 3 : bits > 9 ? 2 : 1); Network net(t); fsx_symbolic(a, 16, "address"); struct sockaddr_storage ss; sockaddrOf(AF_INET6, a, ss); bool m = net.match((struct sockaddr *)&ss); bool want = sameBits(n, a, bits); CHECK(m == want, "IPv6 range"); CHECK(net.match((struct sockaddr_in6 *)&ss) == want, "IPv6 range (typed)"); if (m) COVER("in"); else COVER("out"); sockaddrOf(AF_INET, a, ss); CHECK(!net.match((struct sockaddr *)&ss), "other family"); }
extern "C" void fsx_bad() { static const char *B[] = {"10.0.0.0/33", "10.0.0.0/", "10.0.0.256/8", "::/129", "::/-1", "::/x", "::g/8", "10", "", "::/1 ", "10.0.0.0/8x", "1::2::3/8", ":::/8", "::/1000"}; Bytes t = B[fsx_choice("text", sizeof B / sizeof *B)]; bool threw = false; try { Network n(t); } catch (std::exception &) { threw = true; } CHECK(threw, "not a network"); COVER("bad"); }
// several configured ranges: any of them counts
extern "C" void fsx_list() {
    Settings s; unsigned char n[2][16] = {{0}}, a[4]; int bits[2], k = fsx_choice("ranges", 3); for (int i = 0; i < k; i++) { Bytes t; for (int j = 0; j < 4; j++) { if (j) t += '.'; t += octet(n[i][j]); } static const int B[] = {0, 7, 24, 32}; bits[i] = B[fsx_choice("prefix length", 4)]; t += "/" + dec(bits[i], 2); s.setRealIpFrom.emplace_back(t); } fsx_symbolic(a, 4, "address"); struct sockaddr_storage ss; sockaddrOf(AF_INET, a, ss); bool want = false; for (int i = 0; i < k; i++) want |= sameBits(n[i], a, bits[i]); CHECK(s.matchAddrWithSetRealIpFrom((struct sockaddr *)&ss) == want, "any of the ranges"); if (want) COVER("in"); else COVER("out"); }
