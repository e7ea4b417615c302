// P14: base64.
//@ src: PsiBase64.cpp
//@ bounds: every byte string of length 0..6 (quick) / 0..9 (thorough) for encoding; 0..6 / 0..7 for decoding what was encoded; every text of at most 5 / 6 arbitrary bytes for decoding alone (no crash, length); texts of 57 to 129 bytes with two symbolic bytes
//@ case decode_encode order=5
//@ case large max_instr=60000000
#include "psx.h"
#include "PsiBase64.h"
using namespace PsimagLite;

static uint8_t symbolOf(uint8_t v)
{
	// RFC 4648 alphabet by arithmetic
	uint8_t up = 'A' + v, lo = 'a' + (v - 26), di = '0' + (v - 52);
	return v < 26 ? up : v < 52 ? lo : v < 62 ? di : v == 62 ? (uint8_t)'+' : (uint8_t)'/';
}
static String bytes(SizeType n)
{
	String s(n, ' ');
	for (SizeType i = 0; i < n; ++i)
		s[i] = (char)psx_u8("byte");
	return s;
}
static void checkText(const String& s, const String& t)
{
	SizeType n = s.size();
	psx_assert(t.size() == 4 * ((n + 2) / 3), "four characters for every three bytes begun");
	for (SizeType g = 0; 3 * g < n; ++g) {
		uint32_t w = 0;
		for (SizeType k = 0; k < 3; ++k)
			w = (w << 8) | (3 * g + k < n ? (uint8_t)s[3 * g + k] : 0);
		for (SizeType k = 0; k < 4; ++k) {
			char c = t[4 * g + k];
			if (3 * g + k <= n)
				psx_assert((uint8_t)c == symbolOf((w >> (18 - 6 * k)) & 63), "standard symbol");
			else
				psx_assert(c == '=', "padding");
		}
	}
}
PSX_CASE(encode)
{
	SizeType n = psx_choose("n", PSX_T(7, 10));
	String s = bytes(n);
	PsiBase64::Encode e(s);
	checkText(s, e());
	psx_observe_str(e());
}
PSX_CASE(encode_buffer)
{
	SizeType n = psx_choose("n", PSX_T(7, 10));
	String s = bytes(n);
	PsiBase64::Encode e(reinterpret_cast<const unsigned char*>(s.data()), n);
	checkText(s, e());
}
PSX_CASE(decode_encode)
{
	SizeType n = psx_choose("n", PSX_T(7, 8));
	String s = bytes(n);
	PsiBase64::Encode e(s);
	PsiBase64::Decode d(e());
	psx_assert(d().size() == n, "same length");
	for (SizeType i = 0; i < n; ++i)
		psx_assert(d()[i] == s[i], "same byte");
	psx_observe_str(d());
}
// any text: decoding ends at the first character outside the alphabet and never fails
PSX_CASE(decode_any)
{
	SizeType n = psx_choose("n", PSX_T(6, 7));
	String s = bytes(n);
	PsiBase64::Decode d(s);
	SizeType k = 0;
	for (; k < n; ++k) {
		uint8_t c = s[k];
		if (!((c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z') || (c >= '0' && c <= '9') || c == '+' || c == '/'))
			break;
	}
	psx_assert(d().size() == 3 * (k / 4) + (k % 4 ? k % 4 - 1 : 0), "number of whole bytes");
}

// longer texts: three neighbouring bytes arbitrary
PSX_CASE(large)
{
	static const SizeType lengths[] = { 57, 58, 77, 129 };
	SizeType n = lengths[psx_choose("n", 4)], at = psx_choose("at", 3) * (n / 2 - 1);
	String s(n, ' ');
	for (SizeType i = 0; i < n; ++i)
		s[i] = (char)(i * 73 + i / 3);
	for (SizeType k = 0; k < 2; ++k)
		s[at + k] = (char)psx_u8("byte");
	PsiBase64::Encode e(s);
	checkText(s, e());
	PsiBase64::Encode f(reinterpret_cast<const unsigned char*>(s.data()), n);
	checkText(s, f());
	PsiBase64::Decode d(e());
	psx_assert(d().size() == n, "same length");
	psx_assert(d() == s, "same bytes");
}
